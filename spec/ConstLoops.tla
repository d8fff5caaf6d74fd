----------------------------- MODULE ConstLoops -----------------------------
(* Compile-time loops and integers: what they denote, and how the library    *)
(* computes them (recursion over predecessors; unrolled guarded bodies).     *)
EXTENDS Integers, Sequences

\* positions a loop from a to b passes, in its direction
Range(a, b, rev) == IF a >= b THEN <<>> ELSE [j \in 1..(b - a) |-> IF rev THEN b - j ELSE a + j - 1]
\* stop = k: the k-th visit asks to stop; 0: none does
Visits(a, b, rev, stop) == LET r == Range(a, b, rev) IN IF stop = 0 \/ stop > Len(r) THEN r ELSE SubSeq(r, 1, stop)
Stops(a, b, stop) == stop # 0 /\ a < b /\ stop <= b - a

(* const_int.rs: iterate_as_range(_rev), structurally.  The loop's state is  *)
(* the visits so far and whether one asked to stop.                          *)
Visit(st, x, stop) == IF st.brk THEN st ELSE [v |-> Append(st.v, x), brk |-> stop = Len(st.v) + 1]
RECURSIVE Fwd(_, _, _, _)
Fwd(self, from, st, stop) ==
  IF self = 0 \/ self <= from THEN st
  ELSE LET c == Fwd(self - 1, from, st, stop) IN IF c.brk THEN c ELSE Visit(c, self - 1, stop)
RECURSIVE Bwd(_, _, _, _)
Bwd(self, from, st, stop) ==
  IF self = 0 \/ self <= from THEN st
  ELSE LET c == Visit(st, self - 1, stop) IN IF c.brk THEN c ELSE Bwd(self - 1, from, c, stop)

(* const_loop.rs: one guarded body per index of a fixed list                 *)
RECURSIVE Unrolled(_, _, _, _, _, _)
Unrolled(list, a, b, rev, st, stop) ==
  IF list = <<>> \/ st.brk THEN st
  ELSE IF ~rev /\ Head(list) = b THEN st
  ELSE Unrolled(Tail(list), a, b, rev,
                IF a <= Head(list) /\ (rev => Head(list) < b) THEN Visit(st, Head(list), stop) ELSE st, stop)
Idle == [v |-> <<>>, brk |-> FALSE]
=============================================================================
