SPECIFICATION Spec
CONSTANTS Names = {"X", "Y", "M", "C"}
 Vals = {1, 2}
 MaxLen = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
