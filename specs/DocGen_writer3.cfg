SPECIFICATION Spec
CONSTANTS Depth = 3 Mode = "writer"
CHECK_DEADLOCK FALSE
