SPECIFICATION Spec
CONSTANTS MaxOps = 5 Ids = {1, 2} Res = {0, 2} Bug = "headerfirst"
INVARIANTS CrashSafe Agrees WellFormed
CHECK_DEADLOCK FALSE
