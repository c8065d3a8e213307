SPECIFICATION MCSpec
CONSTANTS
 MaxLevel = 3
 DoEmit = FALSE
 Ops = {"Data"}
VIEW View
CONSTRAINT Depth
INVARIANTS IoTypeOk RoundTrip ThereAndBack
PROPERTIES MCRefused Stable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
