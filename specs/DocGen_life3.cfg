SPECIFICATION Spec
CONSTANTS Depth = 3 Mode = "life"
CHECK_DEADLOCK FALSE
