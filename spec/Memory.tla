------------------------------- MODULE Memory -------------------------------
(* The heap as a container's user may rely on it.                            *)
(*   bl     live blocks: id -> <<size, align>>                               *)
(*   bytes  what they add up to                                              *)
(* A block is released once, with the size and alignment it was allocated    *)
(* with, its surroundings untouched; when everything is dropped nothing is   *)
(* left, and nothing was written to a released block.  Repetitions of a      *)
(* history that returns to the same contents do not need more memory than    *)
(* the first two did, neither at their peak nor at their end.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Heap0 == [bl |-> <<>>, bytes |-> 0, peak |-> 0, ok |-> TRUE]

\* one allocator call: <<1, id, size, align, _>> or <<0, id, size, align, intact>>
Act(s, a) ==
  IF ~s.ok THEN s
  ELSE IF a[1] = 1
  THEN LET b == s.bytes + a[3] IN
       [bl |-> (a[2] :> <<a[3], a[4]>>) @@ s.bl, bytes |-> b, peak |-> IF b > s.peak THEN b ELSE s.peak,
        ok |-> a[2] \notin DOMAIN s.bl]
  ELSE IF /\ a[2] \in DOMAIN s.bl
          /\ s.bl[a[2]] = <<a[3], a[4]>>
          /\ a[5] = 1
  THEN [s EXCEPT !.bl = [x \in DOMAIN s.bl \ {a[2]} |-> s.bl[x]], !.bytes = @ - a[3]]
  ELSE [s EXCEPT !.ok = FALSE]

RECURSIVE Acts(_, _, _)
Acts(s, m, j) == IF j > Len(m) THEN s ELSE Acts(Act(s, m[j]), m, j + 1)

Max(a, b) == IF a > b THEN a ELSE b
=============================================================================
