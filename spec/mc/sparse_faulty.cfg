SPECIFICATION MCSpec
CONSTANTS
 W = 3
 D = 3
 KeySet = 3
 Keys <- MCKeys
 Vals = {7}
 NoVal = 0
 Default = 7
 Bug = "none"
 Faulty = TRUE
 Fresh = FALSE
 Emitting = FALSE
 CapIx <- MCCapIx
VIEW MCView
INVARIANTS WellFormed BlocksAccounted EveryEntryReachable DistinctKeys GetOrDefaultCorrect MasksSound
PROPERTY MCRefines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
