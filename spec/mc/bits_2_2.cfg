SPECIFICATION MCSpec
CONSTANTS
 WB = 2
 N = 2
 Emitting = TRUE
VIEW View
INVARIANTS Same CurrentInv
PROPERTY Replies
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
