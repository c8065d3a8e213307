SPECIFICATION TraceSpec
CONSTANT Rnd <- TraceRnd
INVARIANTS AllWellFormed
PROPERTY TraceRefusedIsNoop
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
