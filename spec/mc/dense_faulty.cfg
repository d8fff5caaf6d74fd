SPECIFICATION MCSpec
CONSTANTS
 W = 3
 D = 3
 KeySet = 3
 Keys <- MCKeys
 Vals = {7}
 NoVal = 0
 Default = 7
 Bug = "none"
 Faulty = TRUE
 Fresh = FALSE
 Emitting = FALSE
VIEW MCView
INVARIANTS WellFormed NoLeak EveryEntryReachable DistinctKeys CapBound IterCorrect MasksSound
PROPERTY MCRefines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
