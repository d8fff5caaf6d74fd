SPECIFICATION Spec
CONSTANT Max = 9
INVARIANTS ByRecursion ByUnrolling
CHECK_DEADLOCK FALSE
