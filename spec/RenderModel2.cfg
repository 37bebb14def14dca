SPECIFICATION Spec
CONSTANT MaxEntries = 2
INVARIANTS Agree Strict Complete
CHECK_DEADLOCK FALSE
