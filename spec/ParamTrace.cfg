SPECIFICATION TraceSpec
INVARIANTS OneConstraintEach NamesUnique
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
