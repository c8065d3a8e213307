SPECIFICATION TraceSpec
PROPERTY TraceRefusedIsNoop
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
