------------------------------- MODULE BitSets ------------------------------
(* Bit blocks and bit queues as users see them: finite sets of positions.    *)
EXTENDS Integers, Sequences, FiniteSets

Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Full(cap) == 0..(cap - 1)
RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>> ELSE LET x == Least(s) IN <<x>> \o Ascending(s \ {x})
\* TLC enumerates sets of integers in order, but nothing says so: IsListOf does not rely on it
IsListOf(q, s) == /\ Len(q) = Cardinality(s)
                  /\ \A j \in 1..(Len(q) - 1) : q[j] < q[j + 1]
                  /\ \A j \in 1..Len(q) : q[j] \in s
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

(* traversal asked to stop at its k-th visit (0: never): what is visited,    *)
(* and whether it says it was stopped                                        *)
IsVisit(q, s, k) ==
  LET ascends == \A j \in 1..(Len(q) - 1) : q[j] < q[j + 1]
      members == \A j \in 1..Len(q) : q[j] \in s
  IN IF k = 0 \/ k > Cardinality(s)
     THEN IsListOf(q, s)
     ELSE Len(q) = k /\ ascends /\ members /\ Cardinality({y \in s : y <= q[k]}) = k
Stopped(s, k) == k # 0 /\ k <= Cardinality(s)

(* ------------------------------- queues ---------------------------------- *)
\* the state of a queue: what remains, a position everything consumed lies
\* below, and whether the end was reported
None == -1
QueueOf(s) == [s |-> s, lo |-> 0, end |-> FALSE]
EmptyQueue == [s |-> {}, lo |-> 0, end |-> TRUE]         \* born finished
NextR(q) == IF q.s = {} THEN None ELSE Least(q.s)
NextQ(q) == IF q.s = {} THEN [q EXCEPT !.end = TRUE]
            ELSE [q EXCEPT !.s = @ \ {Least(q.s)}, !.lo = Least(q.s) + 1]
TrimQ(q, n, cap) == [q EXCEPT !.s = {x \in @ : x >= n}, !.lo = MaxOf(@, MinOf(n, cap)), !.end = @ \/ n >= cap]
CurrentOk(q, c, cap) == /\ c >= q.lo
                        /\ c <= (IF q.s = {} THEN cap ELSE Least(q.s))
                        /\ (q.end => c = cap)
=============================================================================
