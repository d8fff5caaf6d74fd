------------------------------ MODULE TraceBits -----------------------------
(* Trace validation of real bit blocks, bit queues and primitives.           *)
(* cap  positions of the thing under observation                             *)
EXTENDS BitSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, q
vars == <<h, i, q>>
L == Trace[h]
e == L.ev[i + 1]
cap == L.cap
IsTrue(b) == b = TRUE
ToSet(x) == {x[j] : j \in 1..Len(x)}

Init == h \in 1..Len(Trace) /\ i = 0 /\ q = QueueOf({})

Bool(b) == IF b THEN 1 ELSE 0
\* what the call must have returned
Ok ==
  CASE e.o = "new"   -> ToSet(e.s) \subseteq Full(cap)
    [] e.o = "empty" -> TRUE
    [] e.o = "fill"  -> TRUE
    (* queues *)
    [] e.o = "next"  -> e.r = NextR(q)
    [] e.o = "trim"  -> TRUE
    [] e.o = "cur"   -> CurrentOk(q, e.r, cap)
    [] e.o = "trav"  -> IsVisit(e.v, q.s, e.k) /\ e.b = Bool(Stopped(q.s, e.k))
    [] e.o = "rest"  -> IsListOf(e.v, q.s)
    [] e.o = "count" -> e.r = Cardinality(q.s)
    [] e.o = "last"  -> e.r = (IF q.s = {} THEN None ELSE CHOOSE x \in q.s : \A y \in q.s : x >= y)
    (* blocks *)
    [] e.o = "set"   -> e.k \in Full(cap) /\ e.r = Bool(e.k \in q.s)
    [] e.o = "clr"   -> e.k \in Full(cap) /\ e.r = Bool(e.k \in q.s)
    [] e.o = "get"   -> e.r = Bool(e.k \in q.s)
    [] e.o = "all"   -> IsListOf(e.v, q.s)
    [] e.o = "zero"  -> e.r = Bool(q.s = {})
    [] e.o = "eq"    -> e.r = Bool(ToSet(e.s) = q.s)
    [] e.o = "and"   -> TRUE
    [] e.o = "or"    -> TRUE
    [] e.o = "size"  -> e.r = cap
    (* primitives: a is a set of bits, all replies are about it *)
    [] e.o = "prim"  -> LET a == ToSet(e.a) b == ToSet(e.b) IN
         /\ e.tz = (IF a = {} THEN cap ELSE Least(a))
         /\ e.z = Bool(a = {})
         /\ IsListOf(e.neg, IF a = {} THEN {} ELSE {Least(a)} \cup {x \in Full(cap) : x > Least(a) /\ x \notin a})
         /\ IsListOf(e.inv, Full(cap) \ a)
         /\ IsListOf(e.us, a) /\ IsListOf(e.fr, a)
         /\ IsListOf(e.u8, {x \in a : x < 8})
         /\ IsListOf(e.an, a \cap b) /\ IsListOf(e.uo, a \cup b) /\ IsListOf(e.xo, (a \cup b) \ (a \cap b))
         /\ IsListOf(e.sl, {x + e.n : x \in {y \in a : y + e.n < cap}})
         /\ IsListOf(e.sr, {x - e.n : x \in {y \in a : y >= e.n}})
         /\ IsListOf(e.mx, Full(cap)) /\ e.mn = <<>> /\ e.ze = <<>> /\ e.on = <<0>>
    [] OTHER -> FALSE

After ==
  CASE e.o = "new"   -> QueueOf(ToSet(e.s))
    [] e.o = "empty" -> EmptyQueue
    [] e.o = "fill"  -> QueueOf(Full(cap))
    [] e.o = "next"  -> NextQ(q)
    [] e.o = "trim"  -> TrimQ(q, e.n, cap)
    [] e.o = "set"   -> QueueOf(q.s \cup {e.k})
    [] e.o = "clr"   -> [q EXCEPT !.s = @ \ {e.k}]
    [] e.o = "and"   -> [q EXCEPT !.s = @ \cap ToSet(e.s)]
    [] e.o = "or"    -> QueueOf(q.s \cup ToSet(e.s))
    [] OTHER -> q

Step == i < Len(L.ev) /\ IsTrue(Ok) /\ q' = After /\ i' = i + 1 /\ UNCHANGED h
Done == i = Len(L.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
