SPECIFICATION Spec
CONSTANTS Names = {"X", "Y", "M", "C"}
 Vals = {1, 2}
 MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
