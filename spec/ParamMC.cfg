SPECIFICATION MCSpec
CONSTANTS MaxLevel = 4
          DoEmit = FALSE
          Ops = {"Pm"}
VIEW View
CONSTRAINT Depth
INVARIANTS OneConstraintEach NamesUnique EqualWidths PairPositive Lattice
PROPERTIES MCRefusedIsNoop AllOrNothing RenameKeeps CpRenameKeeps RoundTrip
ACTION_CONSTRAINT Emit
