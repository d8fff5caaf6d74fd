SPECIFICATION MCSpec
CONSTANTS
 W = 3
 D = 3
 KeySet = 1
 Keys <- MCKeys
 Vals = {7}
 NoVal = 0
 Default = 7
 Bug = "none"
 Faulty = FALSE
 Fresh = TRUE
 Emitting = TRUE
 CapIx <- MCCapIx
VIEW MCView
INVARIANTS WellFormed BlocksAccounted ExactNodes EveryEntryReachable DistinctKeys GetOrDefaultCorrect MasksExact
PROPERTY MCRefines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
