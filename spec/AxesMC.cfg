SPECIFICATION MCSpec
CONSTANTS MaxDim = 2
          DoEmit = FALSE
VIEW View
INVARIANTS PartitionInv Bijection UniqueNames
PROPERTIES MCRefusedIsNoop MCAppendOnly
ACTION_CONSTRAINT Emit
