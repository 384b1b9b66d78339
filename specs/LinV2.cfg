SPECIFICATION LinSpec
INVARIANT LinInv
CONSTANT Matches <- TraceMatches
CHECK_DEADLOCK FALSE
