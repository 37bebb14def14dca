SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Emits = TRUE
INVARIANTS Inside Right NoNumbers NoDashes Emit
CHECK_DEADLOCK FALSE
