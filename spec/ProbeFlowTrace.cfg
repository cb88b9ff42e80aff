SPECIFICATION TraceSpec
VIEW TraceView
POSTCONDITION Complete
