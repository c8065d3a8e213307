SPECIFICATION MCSpec
CONSTANTS MaxLevel = 3
          DoEmit = FALSE
          Ops = {"Mat"}
          RndM <- Exact
          RndC <- Exact
VIEW View
CONSTRAINT Depth
INVARIANTS GlobalAlone Conserves Projects NoEffect Linear
PROPERTIES MCRefusedIsNoop TotalIsTurns Stable
ACTION_CONSTRAINT Emit
