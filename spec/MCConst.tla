------------------------------- MODULE MCConst ------------------------------
(* Every loop from a to b stopping at its k-th visit: the library's two ways *)
(* to run it visit what it denotes.  One script per loop for the real code.  *)
EXTENDS ConstLoops, TLC, Json
CONSTANT Max
VARIABLES a, b, rev, stop
vars == <<a, b, rev, stop>>
Init == a \in 0..Max /\ b \in 0..Max /\ rev \in BOOLEAN /\ stop \in 0..(Max + 1)
Spec == Init /\ [][UNCHANGED vars]_vars
Says(c) == c.v = Visits(a, b, rev, stop) /\ c.brk = Stops(a, b, stop)
ByRecursion == Says(IF rev THEN Bwd(b, a, Idle, stop) ELSE Fwd(b, a, Idle, stop))
ByUnrolling == a <= b /\ b < 9 => Says(Unrolled(IF rev THEN <<8,7,6,5,4,3,2,1,0>> ELSE <<0,1,2,3,4,5,6,7,8>>, a, b, rev, Idle, stop))
=============================================================================
