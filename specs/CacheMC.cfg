SPECIFICATION Spec
CONSTANTS NKeys = 3 MaxOps = 5 Threads = {1, 2}
INVARIANTS Refines PruneMinimal
CHECK_DEADLOCK FALSE
