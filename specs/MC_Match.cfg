SPECIFICATION Spec
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
