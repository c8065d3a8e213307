SPECIFICATION MCSpec
CONSTANTS
 MaxLevel = 3
 DoEmit = FALSE
 Ops = {"Set"}
VIEW View
CONSTRAINT Depth
PROPERTIES NoneBetter MCRefused
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
