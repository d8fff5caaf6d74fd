SPECIFICATION MCSpec
CONSTANTS
 W = 7
 Byte = 32
 Root = FALSE
 Bug = "none"
 Emitting = TRUE
VIEW MCView
INVARIANTS InBlock Found Sentinel SafeMiss AllWritten CapBound IsSet
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
