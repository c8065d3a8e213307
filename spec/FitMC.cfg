SPECIFICATION MCSpec
CONSTANTS
 MaxLevel = 3
 DoEmit = FALSE
 Ops = {"Grid"}
VIEW View
CONSTRAINT Depth
INVARIANTS GridLaw IvLaw CountLaw AcLaw LeapLaw
PROPERTIES MCRefusedIsNoop Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
