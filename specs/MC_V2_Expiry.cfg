SPECIFICATION MCSpec
CONSTANTS
  Matches <- ExactMatches
  Setup <- MSetup
  Ops <- MOps
  Queries <- MQueries
  Depth <- MDepth
VIEW MCView
ACTION_CONSTRAINT EmitStep
INVARIANTS EmitState Decisions Membership RoleGraph
PROPERTIES RemovalExact RefusalHarmless Monotone
CHECK_DEADLOCK FALSE
