SPECIFICATION TraceSpec
CONSTANT RndM <- TraceM
         RndC <- TraceC
INVARIANTS GlobalAlone
PROPERTY TraceRefusedIsNoop
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
