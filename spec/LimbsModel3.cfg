SPECIFICATION Spec
CONSTANT B = 3
INVARIANTS Exact ArithmeticOk
CHECK_DEADLOCK FALSE
