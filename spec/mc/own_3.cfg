SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2, 3}
 PH = FALSE
 Track = TRUE
 Emitting = TRUE
 Bug = "none"
VIEW View
INVARIANTS Held1
PROPERTY Rules
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
