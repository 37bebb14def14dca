SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Emits = TRUE
INVARIANTS Inside Right NoNumbers NoDashes Emit
CHECK_DEADLOCK FALSE
