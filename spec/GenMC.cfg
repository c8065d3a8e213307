SPECIFICATION MCSpec
CONSTANTS
 MaxLevel = 3
 DoEmit = FALSE
 Ops = {"Draw"}
VIEW View
CONSTRAINT Depth
INVARIANTS PoolLaw TotalLaw
PROPERTIES Apart OnceOnly
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
