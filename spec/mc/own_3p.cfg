SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2, 3}
 PH = TRUE
 Track = TRUE
 Emitting = TRUE
 Bug = "none"
VIEW View
INVARIANTS Held1
PROPERTY Rules
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
