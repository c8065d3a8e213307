SPECIFICATION MCSpec
CONSTANTS
 MaxLevel = 3
 DoEmit = FALSE
 Ops = {"Walk"}
VIEW View
CONSTRAINT Depth
INVARIANTS WalkLaw BalanceLaw SamLaw
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
