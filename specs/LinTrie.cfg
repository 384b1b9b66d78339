SPECIFICATION LinSpec
INVARIANT LinInv
CHECK_DEADLOCK FALSE
