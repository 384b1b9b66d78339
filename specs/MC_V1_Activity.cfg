SPECIFICATION MCSpec
CONSTANTS
  Matches <- ExactMatches
  Setup <- MSetup
  Ops <- MOps
  Queries <- MQueries
  Depth <- MDepth
VIEW MCView
ACTION_CONSTRAINT EmitStep
INVARIANTS EmitState Decisions Sound
PROPERTIES RefusalHarmless LockedStays OthersUntouched FirstStays OnlyGrows OwnTenantOnly
CHECK_DEADLOCK FALSE
