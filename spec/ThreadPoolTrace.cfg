SPECIFICATION TraceSpec
INVARIANT Inv
POSTCONDITION Complete
