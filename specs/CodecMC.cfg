SPECIFICATION Spec
INVARIANTS Inverse FitOk
CHECK_DEADLOCK FALSE
