SPECIFICATION MCSpec
CONSTANTS MaxLevel = 4
          DoEmit = FALSE
          Ops = {"Ds"}
          Rnd <- Exact
VIEW View
CONSTRAINT Depth
INVARIANTS LogsBalance Rectangular EdsWellFormed LayoutFree OnlyNamed NormalisedSums CutsConjoin CountIdem
PROPERTIES MCRefusedIsNoop MCRowsAppendOnly FillLaw
ACTION_CONSTRAINT Emit
