------------------------------ MODULE TraceOwn ------------------------------
(* Trace validation: which values real containers created, handed back and   *)
(* dropped, call by call, with and without panics of user code.              *)
EXTENDS Ownership, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, ts, live, z
vars == <<h, i, ts, live, z>>

L == Trace[h]
N == L.N
e == L.ev[i + 1]
Pan == e.pan = 1
T == ts[e.t]
Init == h \in 1..Len(Trace) /\ i = 0 /\ ts = <<>> /\ live = {} /\ z = [m |-> {}, n |-> 0, p |-> 0]

\* sequences of containers grow by one per container born
Put(t, x) == IF t = Len(ts) + 1 THEN Append(ts, x) ELSE [ts EXCEPT ![t] = x]
Key(k) == k \in 1..N

OK ==
  CASE e.o = "new"  -> e.t = Len(ts) + 1 /\ MakeOK(Pan, e.c, e.d)
    [] e.o = "ins"  -> Key(e.k) /\ StoreOK(T, e.k, e.v, Pan, e.c, e.d)
    [] e.o = "goi"  -> Key(e.k) /\ GetOrInsertOK(T, e.k, e.r, Pan, e.c, e.d)
    [] e.o = "rem"  -> Key(e.k) /\ RemoveOK(T, e.k, e.r, e.c, e.d)
    [] e.o = "set"  -> Key(e.k) /\ SetOK(T, e.k, e.v, e.r, e.c, e.d)
    [] e.o = "lz"   -> LazyOK(live, Pan, e.s, e.c, e.d)
    [] e.o = "mat"  -> e.t = Len(ts) + 1 /\ MaterializeOK(N, ts, Set(e.x), e.e, Pan, e.c, e.d)
    [] e.o = "drop" -> DropOK(T, e.c, e.d)
    [] e.o = "see"  ->
         \* every view shows exactly the stored tokens
         LET entries == {<<k, T.m[k]>> : k \in {k \in 1..N : T.m[k] # 0}} IN
         /\ T.up /\ e.c = <<>> /\ e.d = <<>>
         /\ e.all = T.m
         /\ Set(e.it) = entries /\ Len(e.it) = Cardinality(entries)
         /\ Set(e.kv) = entries /\ Len(e.kv) = Cardinality(entries)
         /\ e.def # <<>> => \A k \in 1..N : IF T.m[k] # 0 THEN e.def[k] = T.m[k] ELSE e.def[k] \in T.p
    [] OTHER -> FALSE

Next1 ==
  CASE e.o = "new"  -> Put(e.t, Made(N, Pan, e.c, e.d))
    [] e.o = "ins"  -> Put(e.t, Stored(T, e.k, e.v, e.c, e.d))
    [] e.o = "goi"  -> Put(e.t, GotOrInserted(T, e.k, e.r, Pan, e.c, e.d))
    [] e.o = "rem"  -> Put(e.t, Removed(T, e.k, e.c, e.d))
    [] e.o = "set"  -> Put(e.t, WasSet(T, e.k, e.v, e.r))
    [] e.o = "mat"  -> Append([x \in DOMAIN ts |-> IF x \in Set(e.x) THEN Nothing(N) ELSE ts[x]], Materialized(N, e.e, Pan, e.c, e.d))
    [] e.o = "drop" -> Put(e.t, Nothing(N))
    [] OTHER -> ts

Token == /\ e.o \in {"new", "ins", "goi", "rem", "set", "lz", "mat", "drop", "see"}
         /\ Sane(live, e.c, e.d)
         /\ OK
         /\ ts' = Next1 /\ live' = After(live, e.c, e.d) /\ UNCHANGED z

(* ------------------- values without identity (no bytes) ----------------- *)
\* z.m: present indices, z.n: values alive, z.p: placeholders
ZStep ==
  /\ e.o \in {"znew", "zins", "zrem", "zsee", "zdrop"}
  /\ CASE e.o = "znew" -> z' = [m |-> {}, n |-> e.c - e.d, p |-> e.c - e.d] /\ e.c >= e.d
       [] e.o = "zins" -> z' = [z EXCEPT !.m = @ \cup {e.k}, !.n = z.n + e.c - e.d] /\ z'.n = Cardinality(z'.m) + z.p
       [] e.o = "zrem" -> /\ (e.r = 1) = (e.k \in z.m)
                          /\ z' = [z EXCEPT !.m = @ \ {e.k}, !.n = z.n + e.c - e.d] /\ z'.n = Cardinality(z'.m) + z.p
       [] e.o = "zsee" -> (e.r = 1) = (e.k \in z.m) /\ e.c = e.d /\ z' = z
       [] e.o = "zdrop" -> e.n = Cardinality(z.m) /\ z.n + e.c - e.d = 0 /\ z' = [m |-> {}, n |-> 0, p |-> 0]
  /\ UNCHANGED <<ts, live>>

Step == i < Len(L.ev) /\ (Token \/ ZStep) /\ i' = i + 1 /\ UNCHANGED h
\* no value outlives everything, unless a panic of user code had it leaked
Clean == (\A j \in 1..Len(L.ev) : L.ev[j].o \in {"die"} \/ ("pan" \in DOMAIN L.ev[j] => L.ev[j].pan = 0)) /\ (\A t \in DOMAIN ts : ~ts[t].up) => live = {}
Done == i = Len(L.ev) /\ Clean /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
