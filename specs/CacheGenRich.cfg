SPECIFICATION Spec
CONSTANTS Depth = 18 Rich = TRUE
CHECK_DEADLOCK FALSE
