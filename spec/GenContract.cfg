SPECIFICATION Spec
CONSTANTS
  Forms = {"ref", "call", "member"}
INVARIANTS Emit Answered NoInvention OneStep
CHECK_DEADLOCK FALSE
