-------------------------------- MODULE MCOwn --------------------------------
(* What the container operations do with values, call by call of user code,  *)
(* and a panic at every such call.  Exhaustive within Keys; it must satisfy  *)
(* the call-level rules of Ownership.  One script per transition is replayed *)
(* on real containers, whose records TraceOwn checks.                        *)
(*                                                                           *)
(* slots   the data storage: <<key, token>>, in storage order (removal moves *)
(*         the last entry); the placeholder of PH is a token too             *)
(* open    keys whose path exists without an entry, because the default that *)
(*         should have been stored panicked                                  *)
EXTENDS Ownership, TLC, Json
CONSTANTS Keys, PH, Track, Emitting, Bug
VARIABLES slots, ph, open, live, nx, hist, last
vars == <<slots, ph, open, live, nx, hist, last>>

NK == Cardinality(Keys)
SlotOf(k) == CHOOSE j \in 1..Len(slots) : slots[j][1] = k
Has(k) == \E j \in 1..Len(slots) : slots[j][1] = k
At(k) == IF Has(k) THEN slots[SlotOf(k)][2] ELSE 0
Abs == [m |-> [k \in 1..NK |-> At(k)], p |-> IF ph = 0 THEN {} ELSE {ph}, up |-> TRUE]

Init == /\ slots = <<>> /\ open = {} /\ hist = <<>> /\ last = [o |-> "none"]
        /\ ph = (IF PH THEN 1 ELSE 0) /\ live = (IF PH THEN {1} ELSE {}) /\ nx = 2

\* a call with what it created and dropped, in order; fuse: 0 = no panic, n = the n-th call of user code panics
Call(o, k, v, r, fuse, c, d, x) ==
  /\ live' = After(live, c, d)
  /\ last' = [o |-> o, k |-> k, v |-> v, r |-> r, pan |-> fuse # 0, c |-> c, d |-> d, e |-> x]
  /\ hist' = Append(hist, <<o, k, fuse>>)

Insert(k, fuse) ==
  LET v == nx old == At(k) IN
  /\ fuse \in {0, 1} /\ (fuse = 1 => Has(k))               \* only the drop of the old value is user code
  /\ nx' = nx + 1
  /\ slots' = IF ~Has(k) THEN Append(slots, <<k, v>>)
              ELSE IF Bug = "lost_new" /\ fuse = 1 THEN slots
              ELSE [slots EXCEPT ![SlotOf(k)] = <<k, v>>]
  /\ open' = open \ {k} /\ UNCHANGED ph
  /\ Call("ins", k, v, 0, fuse, <<v>>, IF old = 0 THEN <<>> ELSE <<old>>, <<>>)

GetOrInsert(k, fuse) ==
  /\ fuse \in {0, 1} /\ (fuse = 1 => ~Has(k)) /\ UNCHANGED ph
  /\ IF Has(k) THEN /\ UNCHANGED <<slots, open, nx>> /\ Call("goi", k, 0, At(k), 0, <<>>, <<>>, <<>>)
     ELSE IF fuse = 1
     THEN /\ slots' = IF Bug = "half_made" THEN Append(slots, <<k, 0>>) ELSE slots
          /\ open' = open \cup {k} /\ UNCHANGED nx
          /\ Call("goi", k, 0, 0, 1, <<>>, <<>>, <<>>)
     ELSE /\ slots' = Append(slots, <<k, nx>>) /\ nx' = nx + 1 /\ open' = open \ {k}
          /\ Call("goi", k, 0, nx, 0, <<nx>>, <<>>, <<>>)

Remove(k) ==
  /\ slots' = IF Has(k) THEN SwapRemove(slots, SlotOf(k)) ELSE slots
  /\ UNCHANGED <<ph, open, nx>>
  /\ Call("rem", k, 0, At(k), 0, <<>>, IF Has(k) THEN <<At(k)>> ELSE <<>>, <<>>)

\* writes through key_values_mut and get_mut
Write(k) ==
  /\ UNCHANGED <<ph, open>>
  /\ IF Has(k) THEN slots' = [slots EXCEPT ![SlotOf(k)] = <<k, nx>>] /\ nx' = nx + 1 /\ Call("set", k, nx, 1, 0, <<nx>>, <<At(k)>>, <<>>)
     ELSE UNCHANGED <<slots, nx>> /\ Call("set", k, 0, 0, 0, <<>>, <<>>, <<>>)

(* Materialization of a map over the container: one function call per entry  *)
(* in key order, each makes a token; if one panics all made so far are gone  *)
(* with the half-made container (leaked or dropped).                         *)
Sorted == LET RECURSIVE Up(_)
              Up(s) == IF s = {} THEN <<>> ELSE LET k == CHOOSE k \in s : \A y \in s : k <= y IN <<k>> \o Up(s \ {k})
          IN Up({slots[j][1] : j \in 1..Len(slots)})
Materialize(fuse) ==
  LET n == Len(slots) made == [j \in 1..(IF fuse = 0 THEN n ELSE fuse - 1) |-> nx + j - 1] IN
  /\ fuse \in 0..n
  /\ nx' = nx + Len(made) /\ UNCHANGED <<slots, ph, open>>
  /\ \E d \in (IF fuse = 0 THEN {<<>>} ELSE {<<>>, made}) :
       Call("mat", 0, 0, 0, fuse, made, d, IF fuse = 0 THEN [j \in 1..n |-> <<Sorted[j], made[j]>>] ELSE <<>>)

(* The end: every slot is dropped in order, a panic of one does not stop it. *)
Drop(fuse) ==
  LET toks == (IF ph = 0 THEN <<>> ELSE <<ph>>) \o [j \in 1..Len(slots) |-> slots[j][2]]
      done == IF Bug = "stops" /\ fuse # 0 THEN SubSeq(toks, 1, fuse) ELSE toks IN
  /\ fuse \in 0..Len(toks)
  /\ UNCHANGED <<slots, ph, open, nx>>
  /\ Call("drop", 0, 0, 0, fuse, <<>>, done, <<>>)

Over == hist # <<>> /\ last.o \in {"drop", "mat"}     \* nothing follows in the model
Next == ~Over /\ ( \/ \E k \in Keys, f \in 0..1 : Insert(k, f) \/ GetOrInsert(k, f)
                   \/ \E k \in Keys : Remove(k) \/ Write(k)
                   \/ \E f \in 0..(NK + 1) : Materialize(f) \/ Drop(f))
Spec == Init /\ [][Next]_vars
View == <<[j \in 1..Len(slots) |-> slots[j][1]], IF Track THEN open ELSE {}, Over>>

(* the rules *)
L == last'
Rules == [][
  /\ Sane(live, L.c, L.d)
  /\ CASE L.o = "ins" -> StoreOK(Abs, L.k, L.v, L.pan, L.c, L.d) /\ Abs' = Stored(Abs, L.k, L.v, L.c, L.d)
       [] L.o = "goi" -> GetOrInsertOK(Abs, L.k, L.r, L.pan, L.c, L.d) /\ Abs' = GotOrInserted(Abs, L.k, L.r, L.pan, L.c, L.d)
       [] L.o = "rem" -> RemoveOK(Abs, L.k, L.r, L.c, L.d) /\ Abs' = Removed(Abs, L.k, L.c, L.d)
       [] L.o = "set" -> SetOK(Abs, L.k, L.v, L.r, L.c, L.d) /\ Abs' = WasSet(Abs, L.k, L.v, L.r)
       [] L.o = "mat" -> MaterializeOK(NK, <<Abs>>, {}, L.e, L.pan, L.c, L.d) /\ Abs' = Abs
       [] L.o = "drop" -> DropOK(Abs, L.c, L.d) /\ live' = {}
  ]_hist
\* a stored value is alive, in one place
Held1 == ~(Over /\ last.o = "drop") => /\ \A j \in 1..Len(slots) : slots[j][2] \in live
                                       /\ \A i, j \in 1..Len(slots) : i # j => slots[i] # slots[j] /\ slots[i][1] # slots[j][1]
Emit == ~Emitting \/ PrintT("@" \o ToJson([h |-> hist', n |-> NK, ph |-> PH]))
=============================================================================
