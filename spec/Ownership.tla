----------------------------- MODULE Ownership ------------------------------
(* Who owns which value.  Values are tokens with unique identities.          *)
(*                                                                           *)
(*   live        tokens that have been created and not yet dropped           *)
(*   a container [m |-> index -> token or 0, p |-> tokens it holds that are  *)
(*               not entries (placeholders), up |-> TRUE]                    *)
(*                                                                           *)
(* Each call reports the tokens created (c) and dropped (d) while it ran.    *)
(* The operators below say, per call, which c and d are possible and what    *)
(* the container holds afterwards.  They leave a container free to create    *)
(* and drop tokens of its own (temporaries, placeholders), never an entry.   *)
EXTENDS HibitMap

Set(s) == Range(s)
Nothing(N) == [m |-> [k \in 1..N |-> 0], p |-> {}, up |-> FALSE]
Held(t)    == {t.m[k] : k \in DOMAIN t.m} \ {0}
Owned(t)   == Held(t) \cup t.p

\* c and d are sane at all: nothing is dropped twice, nothing that never was.
Sane(live, c, d) == /\ Distinct(c) /\ Set(c) \cap live = {}
                    /\ Distinct(d) /\ Set(d) \subseteq (live \cup Set(c))
After(live, c, d) == (live \cup Set(c)) \ Set(d)

\* dropped: exactly `must`, and possibly temporaries and placeholders of t
Drops(t, must, c, d) == must \subseteq Set(d) /\ Set(d) \subseteq (must \cup t.p \cup Set(c))
\* what t still holds besides entries; `given` became an entry
Rest(t, given, c, d) == (t.p \cup Set(c)) \ (Set(d) \cup given)

(* Each operator: is the call possible (OK), and the container after it.     *)
MakeOK(pan, c, d) == pan => Set(c) \subseteq Set(d)
Made(N, pan, c, d) == IF pan THEN Nothing(N) ELSE [m |-> [k \in 1..N |-> 0], p |-> Set(c) \ Set(d), up |-> TRUE]

\* a value v (created by the caller) is stored at k; the one it replaces is dropped
StoreOK(t, k, v, pan, c, d) ==
   LET old == {t.m[k]} \ {0} IN
   /\ t.up /\ v \in Set(c) /\ v \notin Set(d)
   /\ Drops(t, old, c, d)
   /\ pan => old # {}                      \* only the drop of the old value can panic
Stored(t, k, v, c, d) == [t EXCEPT !.m[k] = v, !.p = Rest(t, {v}, c, d)]

\* default() makes the value; if it panics nothing happened
GetOrInsertOK(t, k, r, pan, c, d) ==
   /\ t.up /\ Drops(t, {}, c, d)
   /\ IF t.m[k] # 0 THEN ~pan /\ r = t.m[k]
      ELSE pan \/ (r \in Set(c) /\ r \notin Set(d))
GotOrInserted(t, k, r, pan, c, d) ==
   IF pan THEN [t EXCEPT !.p = Rest(t, {}, c, d)]
   ELSE [t EXCEPT !.m[k] = r, !.p = Rest(t, {r}, c, d)]

\* the removed value is handed back; the caller drops it at once
RemoveOK(t, k, r, c, d) == t.up /\ r = t.m[k] /\ Drops(t, {r} \ {0}, c, d)
Removed(t, k, c, d)     == [t EXCEPT !.m[k] = 0, !.p = Rest(t, {}, c, d)]

\* a write through a reference: the old value is dropped by the assignment
SetOK(t, k, v, r, c, d) ==
   /\ t.up /\ (r = 1) = (t.m[k] # 0)
   /\ IF r = 1 THEN c = <<v>> /\ d = <<t.m[k]>> ELSE c = <<>> /\ d = <<>>
WasSet(t, k, v, r) == IF r = 1 THEN [t EXCEPT !.m[k] = v] ELSE t

\* borrowing views: only what user functions made may be dropped.  All of it is, unless one panicked.
LazyOK(live, pan, s, c, d) == /\ Set(d) \subseteq Set(c)
                              /\ ~pan => Set(c) \subseteq Set(d)
                              /\ Set(s) \subseteq (live \cup Set(c))

\* materialization: every entry is a new token; the containers moved into it are dropped
Whole(ts, xs) == UNION {Owned(ts[x]) : x \in xs}
MaterializeOK(N, ts, xs, e, pan, c, d) ==
   LET got == [j \in 1..Len(e) |-> e[j][2]] IN
   /\ Set(d) \subseteq (Set(c) \cup Whole(ts, xs))
   /\ ~pan => /\ Whole(ts, xs) \subseteq Set(d)
              /\ Distinct(got) /\ Set(got) \subseteq Set(c) \ Set(d)
              /\ Distinct([j \in 1..Len(e) |-> e[j][1]])
              /\ \A j \in 1..Len(e) : e[j][1] \in 1..N
Materialized(N, e, pan, c, d) ==
   IF pan THEN Nothing(N)
   ELSE [m  |-> [k \in 1..N |-> IF \E j \in 1..Len(e) : e[j][1] = k THEN e[CHOOSE j \in 1..Len(e) : e[j][1] = k][2] ELSE 0],
         p  |-> (Set(c) \ Set(d)) \ {e[j][2] : j \in 1..Len(e)},
         up |-> TRUE]

\* everything it holds, exactly once, even if one of the drops panics
DropOK(t, c, d) == t.up /\ Set(d) = Owned(t) \cup Set(c)
=============================================================================
