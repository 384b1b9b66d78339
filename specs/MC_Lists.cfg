SPECIFICATION MCSpec
ACTION_CONSTRAINT EmitStep
INVARIANTS EmitState
PROPERTIES Persistent
CHECK_DEADLOCK FALSE
