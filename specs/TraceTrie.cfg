SPECIFICATION TraceSpec
INVARIANT TraceInv
VIEW TraceView
CHECK_DEADLOCK FALSE
