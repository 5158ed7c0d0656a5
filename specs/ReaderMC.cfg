SPECIFICATION Spec
CONSTANTS Readers = {1, 2, 3} Closer = 0
INVARIANTS NoUseAfterFree Explained
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
