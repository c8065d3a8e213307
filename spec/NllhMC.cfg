SPECIFICATION MCSpec
CONSTANTS MaxLevel = 3
          DoEmit = FALSE
          Ops = {"Norm"}
          RndM <- Exact
          RndC <- Exact
VIEW View
CONSTRAINT Depth
INVARIANTS Gibbs Uncertain Positive SumPars Weighted CutIsOne
PROPERTIES MCRefusedIsNoop Apart Again SetIsRead FromOriginals AlongKeeps
ACTION_CONSTRAINT Emit
