SPECIFICATION TraceSpec
CONSTANT Matches <- TraceMatches
VIEW TraceView
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
