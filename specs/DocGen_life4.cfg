SPECIFICATION Spec
CONSTANTS Depth = 4 Mode = "life"
CHECK_DEADLOCK FALSE
