SPECIFICATION MCSpec
ACTION_CONSTRAINT EmitStep
INVARIANTS EmitState OnePerKeys LastWins Firsts
PROPERTIES Kept
CHECK_DEADLOCK FALSE
