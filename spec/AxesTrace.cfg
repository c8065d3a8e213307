SPECIFICATION TraceSpec
INVARIANTS UniqueNames
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
