------------------------------ MODULE HeapNode -------------------------------
(* One node of the compressed tree as it lies in memory.                     *)
(*                                                                           *)
(*   up     the node exists (the root always does)                           *)
(*   mask   digits that have a child                                         *)
(*   len    cells in use, cap cells allocated - both kept in a byte          *)
(*   mem    the cells: children in digit order, then the empty child         *)
(*                                                                           *)
(* Three ways to make one: empty with room (first insertion), from a finished*)
(* list of children, or pushed child by child (both by materialization).     *)
(* A child is known by its digit; Undef is memory nobody wrote.              *)
(* Every access says whether it stays inside the block (InBlock), copies     *)
(* are memmoves.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Byte, Bug
VARIABLES up, mask, cap, len, mem, ok
vars == <<up, mask, cap, len, mem, ok>>

Undef == -2
Empty == -1
Digits == 0..(W - 1)
Dense(m, d) == Cardinality({x \in m : x < d})          \* cells before d's
Fresh(n) == [j \in 1..n |-> Undef]
RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o Ascending(s \ {x})

NewN(n) == [up |-> TRUE, mask |-> {}, cap |-> n, len |-> 1, mem |-> [Fresh(n) EXCEPT ![1] = Empty], ok |-> n >= 1]
None == [up |-> FALSE, mask |-> {}, cap |-> 0, len |-> 0, mem |-> <<>>, ok |-> TRUE]

\* write one cell; copy n cells (0-based positions)
Put(s, at, x) == IF at \in 0..(s.cap - 1) THEN [s EXCEPT !.mem[at + 1] = x] ELSE [s EXCEPT !.ok = FALSE]
Move(s, from, to, n) ==
  IF n <= 0 THEN [s EXCEPT !.ok = @ /\ n = 0]
  ELSE IF from + n > s.cap \/ to + n > s.cap THEN [s EXCEPT !.ok = FALSE]
  ELSE [s EXCEPT !.mem = [j \in 1..s.cap |-> IF j - 1 \in to..(to + n - 1) THEN s.mem[j - to + from] ELSE s.mem[j]]]

\* a list of children at once
FromParts(m) ==
  LET cs == Ascending(m) c == (Len(cs) + 1) % Byte
      s0 == [up |-> TRUE, mask |-> m, cap |-> c, len |-> IF Bug = "short_len" THEN Len(cs) ELSE c, mem |-> Fresh(c), ok |-> TRUE]
      s1 == [s0 EXCEPT !.mem = [j \in 1..c |-> IF j <= Len(cs) THEN cs[j] ELSE Undef]]
  IN Put(s1, Len(cs), Empty)
\* child by child
RECURSIVE Pushes(_, _, _)
Pushes(s, cs, j) == IF j > Len(cs) THEN s ELSE Pushes([Put(s, s.len, cs[j]) EXCEPT !.len = (@ + 1) % Byte], cs, j + 1)
Pushed(m) ==
  LET c == (Cardinality(m) + 1) % Byte
      s == Pushes([up |-> TRUE, mask |-> m, cap |-> c, len |-> 0, mem |-> Fresh(c), ok |-> TRUE], Ascending(m), 1)
  IN [Put(s, s.len, Empty) EXCEPT !.len = IF Bug = "short_push" THEN @ ELSE (@ + 1) % Byte]

Grown(s) ==
  IF s.len # s.cap THEN s
  ELSE LET c == (2 * s.cap) % Byte IN
       [s EXCEPT !.cap = c, !.mem = [j \in 1..c |-> IF j <= s.cap THEN s.mem[j] ELSE Undef], !.ok = @ /\ c > s.cap]
WithChild(s, d, x) ==
  LET g == IF Bug = "grow_late" /\ s.len = s.cap /\ s.len > 3 THEN s ELSE Grown(s)
      n == [g EXCEPT !.mask = @ \cup {d}]
      i == Dense(n.mask, d)
      m == Move(n, i, i + 1, n.len - i - (IF Bug = "lose_sentinel" THEN 1 ELSE 0))
  IN [Put(m, i, x) EXCEPT !.len = (@ + 1) % Byte]
WithoutChild(s, d) ==
  LET i == Dense(s.mask, d)
      n == [s EXCEPT !.mask = @ \ {d}]
      m == Move(n, i + 1, i, n.len - i - 1 - (IF Bug = "lose_sentinel_left" THEN 1 ELSE 0))
  IN [m EXCEPT !.len = @ - 1]

\* what a lookup of d reads, present or not
Reads(s, d) == LET i == Dense(s.mask, d) IN IF i < s.cap THEN s.mem[i + 1] ELSE Undef

(* ------------------------------- actions -------------------------------- *)
Now == [up |-> up, mask |-> mask, cap |-> cap, len |-> len, mem |-> mem, ok |-> ok]
Becomes(s) == up' = s.up /\ mask' = s.mask /\ cap' = s.cap /\ len' = s.len /\ mem' = s.mem /\ ok' = s.ok
Starts(s) == up = s.up /\ mask = s.mask /\ cap = s.cap /\ len = s.len /\ mem = s.mem /\ ok = s.ok

AddChild(d) == d \notin mask /\ Becomes(WithChild(IF up THEN Now ELSE NewN(2), d, d))
DropChild(d, root) == /\ up /\ d \in mask
                      /\ LET s == WithoutChild(Now, d) IN
                         Becomes(IF s.mask = {} /\ ~root THEN None ELSE s)

(* ------------------------------ properties ------------------------------ *)
InBlock == ok /\ len <= cap /\ cap < Byte
Found   == up => \A d \in mask : Reads(Now, d) = d
Sentinel == up => len = Cardinality(mask) + 1 /\ mem[len] = Empty
\* a miss lands on a written cell: a neighbour or the empty child
SafeMiss == up => \A d \in Digits : Reads(Now, d) # Undef
AllWritten == \A j \in 1..len : mem[j] # Undef
CapBound == cap <= 2 * W
=============================================================================
