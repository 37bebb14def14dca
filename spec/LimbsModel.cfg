SPECIFICATION Spec
CONSTANT B = 2
INVARIANTS Exact ArithmeticOk
CHECK_DEADLOCK FALSE
