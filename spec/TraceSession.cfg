INIT TraceInit
NEXT TraceNext
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
