SPECIFICATION Spec
CONSTANTS Depth = 3 Mode = "editor"
CHECK_DEADLOCK FALSE
