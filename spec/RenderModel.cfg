SPECIFICATION Spec
CONSTANT MaxEntries = 1
INVARIANTS Agree Strict Complete
CHECK_DEADLOCK FALSE
