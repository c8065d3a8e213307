SPECIFICATION MCSpec
CONSTANTS
 MaxLevel = 3
 DoEmit = FALSE
 Ops = {"Parse"}
VIEW View
CONSTRAINT Depth
INVARIANTS TreeLaw IdleLaw PrefixLaw
PROPERTIES MCRefusedIsNoop Snapshot
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
