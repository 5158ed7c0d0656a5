SPECIFICATION Spec
CONSTANTS Depth = 2 Mode = "writer"
CHECK_DEADLOCK FALSE
