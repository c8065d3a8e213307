SPECIFICATION TraceSpec
CONSTANT RndM <- Exact
         RndC <- Exact
PROPERTY TraceRefusedIsNoop
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
