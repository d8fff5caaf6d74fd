SPECIFICATION MCSpec
CONSTANTS
 W = 6
 Byte = 32
 Root = TRUE
 Bug = "none"
 Emitting = TRUE
VIEW MCView
INVARIANTS InBlock Found Sentinel SafeMiss AllWritten CapBound IsSet
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
