SPECIFICATION Spec
CONSTANTS Depth = 4 Rich = FALSE
CHECK_DEADLOCK FALSE
