SPECIFICATION MCSpec
CONSTANTS
 W = 3
 D = 3
 KeySet = 2
 Keys <- MCKeys
 Vals = {7}
 NoVal = 0
 Default = 7
 Bug = "none"
 Faulty = FALSE
 Fresh = TRUE
 Emitting = TRUE
VIEW MCView
INVARIANTS WellFormed NoLeak ExactNodes EveryEntryReachable DistinctKeys CapBound IterCorrect MasksExact
PROPERTY MCRefines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
