SPECIFICATION Spec
CONSTANTS Depth = 4 Mode = "writer"
CHECK_DEADLOCK FALSE
