SPECIFICATION MCSpec
CONSTANTS
 W = 3
 D = 3
 KeySet = 1
 Keys <- MCKeys
 Vals = {5}
 NoVal = 0
 Default = 7
 Bug = "none"
 Faulty = FALSE
 Fresh = FALSE
 Emitting = FALSE
VIEW MCView
INVARIANTS WellFormed NoLeak ExactNodes EveryEntryReachable DistinctKeys CapBound IterCorrect MasksExact
PROPERTY MCRefines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
