SPECIFICATION TraceSpec
CONSTANT Rnd <- TraceRnd
INVARIANTS LogsBalance Rectangular EdsWellFormed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
