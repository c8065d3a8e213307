SPECIFICATION MCSpec
CONSTANTS MaxLevel = 4
          DoEmit = FALSE
          Ops = {"Fill","Bin","Arith"}
          Rnd <- Exact
VIEW View
CONSTRAINT Depth
INVARIANTS AllWellFormed MargLaws SliceLaws ShrinkLaws FillLaws NormLaws
PROPERTIES MCRefusedIsNoop
ACTION_CONSTRAINT Emit
