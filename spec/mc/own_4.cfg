SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2, 3, 4}
 PH = FALSE
 Track = FALSE
 Emitting = TRUE
 Bug = "none"
VIEW View
INVARIANTS Held1
PROPERTY Rules
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
