SPECIFICATION MCSpec
CONSTANTS
 WB = 3
 N = 3
 Emitting = TRUE
VIEW View
INVARIANTS Same CurrentInv
PROPERTY Replies
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
