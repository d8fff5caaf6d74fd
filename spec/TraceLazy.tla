----------------------------- MODULE TraceLazy -----------------------------
(* Trace validation of lazy trees: every line is one expression over real    *)
(* sources and everything that was observed of it.                           *)
(*   W, D, K    node width, depth, the keys (digit paths, ascending)         *)
(*   src        contents m and extra advertised paths ph of the sources      *)
(*   ex, exact  the expression, and whether the code declares it exact       *)
(*   ref        masks of a selection of nodes, from fresh cursors            *)
(*   ev         the calls and their results                                  *)
EXTENDS LazyTree, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i,
  walk,   \* walked cursors: id -> [sel |-> levels selected, path |-> digits below the root]
  scur,   \* cursors of instrumented sources: id -> [s, sel, path]
  req     \* the request being served: what may be touched
vars == <<h, i, walk, scur, req>>

L == Trace[h]
N == Len(L.K)
P == L.K
Src == L.src
\* ndjson has no sets
AsSrc(s) == [m |-> s.m, ph |-> Range(s.ph)]
SRC == [j \in 1..Len(L.src) |-> AsSrc(L.src[j])]
D0(k) == Den(SRC, L.ex, k)

SortedPool(K, W, D) == /\ K # <<>>
                       /\ \A x \in 1..Len(K) : ValidKey(K[x], W, D)
                       /\ \A x \in 1..(Len(K) - 1) : LexLess(K[x], K[x + 1])

NoReq == [f |-> "none"]
Init == /\ h \in 1..Len(Trace)
        /\ i = 0 /\ walk = <<>> /\ scur = <<>> /\ req = NoReq
        /\ Assert(SortedPool(Trace[h].K, Trace[h].W, Trace[h].D), <<"bad pool", h>>)

e == L.ev[i + 1]
\* evaluated as a value: TLC would otherwise branch on every disjunct and witness inside it
IsTrue(b) == b = TRUE
Known(k) == k \in 1..N

(* ------------------------------- contents ------------------------------- *)
GetAll == e.o = "all" /\ e.r = [k \in 1..N |-> D0(k)]
Get == e.o = "get" /\ e.r = (IF Known(e.k) THEN D0(e.k) ELSE Absent)
GetUnchecked == e.o = "geu" /\ Known(e.k) /\ e.r = D0(e.k) /\ e.r # Absent
Entries == SelectSeq([k \in 1..N |-> <<k, D0(k)>>], LAMBDA y : y[2] # Absent)
Iterate == e.o = "it" /\ e.e = Entries /\ e.t = 3
Exactness == e.o = "exact" /\ (e.r = 1 => MayBeExact(SRC, L.ex)) /\ e.r = L.exact

(* ------------------------------- masks ---------------------------------- *)
Ascending(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
MasksOk(ms) == LET S == Keys(SRC, L.ex, N) IN
  \A j \in 1..Len(ms) : LET y == ms[j] IN
     Ascending(y[2]) /\ MaskOk(SRC, L.ex, P, S, L.exact = 1, y[1], Range(y[2]))
Masks == e.o = "masks" /\ MasksOk(e.e)
RefMasks == e.o = "ref" /\ MasksOk(L.ref)

\* the reported mask of the node at path p (empty when it does not exist)
Ref(p) == LET s == SelectSeq(L.ref, LAMBDA y : y[1] = p) IN IF s = <<>> THEN {} ELSE Range(s[1][2])

(* ------------------------------- cursors -------------------------------- *)
NewWalk == e.o = "wn" /\ walk' = (e.c :> [sel |-> 0, path |-> <<>>]) @@ walk
Stepped(w, l, y) == [sel |-> l + 1, path |-> IF l = 0 THEN <<>> ELSE Append(Prefix(w.path, l - 1), y)]
WalkSelect ==
  /\ e.o = "ws" /\ e.l <= walk[e.c].sel
  /\ LET w == Stepped(walk[e.c], e.l, e.x) IN
     /\ IsTrue(Ascending(e.b) /\ Range(e.b) = Ref(w.path))
     /\ walk' = [walk EXCEPT ![e.c] = w]
KeyOf(path) == CHOOSE k \in 0..N : IF k = 0 THEN ~\E j \in 1..N : P[j] = path ELSE P[k] = path
WalkData ==
  /\ e.o = "wd" /\ walk[e.c].sel = L.D
  /\ LET k == KeyOf(Append(walk[e.c].path, e.x)) IN
     /\ e.r = (IF k = 0 THEN Absent ELSE D0(k))
     /\ e.u = 1 => e.r # Absent

(* ------------------------- values that are iterators --------------------- *)
Hints == /\ e.o = "hints"
         /\ \A j \in 1..Len(e.h) : LET y == e.h[j] IN
              /\ y[2] <= y[5] /\ (y[3] = -1 \/ y[5] <= y[3])
              /\ y[1] = 1 => y[2] = y[5] /\ y[3] = y[5] /\ y[4] = y[5]

(* ---------------------------- user functions ----------------------------- *)
Triples == {e.c[j] : j \in 1..Len(e.c)}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
\* calls for all entries together: what must be called, and what may be called besides it
\* (a value of a sub-expression that the whole then does not need)
Total(Used(_, _, _), c, j) == Sum([k \in 1..N |-> LET u == {y \in Used(SRC, L.ex, k) : y[1] = c} IN
                                   IF u = {} THEN 0 ELSE (CHOOSE y \in u : TRUE)[j]], N)
NodesOf == UNION {{u[1] : u \in Uses(SRC, L.ex, k)} : k \in 1..N}
EveryOk(calls) ==
  /\ NodesOf \subseteq {y[1] : y \in calls}
  /\ \A y \in calls : \A j \in {2, 3} : y[j] >= Total(Uses, y[1], j) /\ y[j] <= Total(MayUse, y[1], j)
Calls ==
  /\ e.o = "calls"
  /\ CASE e.f = "none" -> Triples = {}
       [] e.f = "key" -> IF Known(e.k) THEN CallsOk(SRC, L.ex, e.k, Triples) ELSE Triples = {}
       [] e.f = "every" -> EveryOk(Triples)

(* -------------------------- materialization ------------------------------ *)
Materialize ==
  /\ e.o = "mat"
  /\ e.all = [k \in 1..N |-> D0(k)]
  /\ e.it = Entries /\ e.t = 3
  /\ LET S == Keys(SRC, L.ex, N) IN
     /\ Len(e.k) = Cardinality(S) /\ Len(e.v) = Len(e.k) /\ Range(e.k) = S
     /\ \A j \in 1..Len(e.k) : e.v[j] = D0(e.k[j])
     /\ \A j \in 1..Len(e.m) : Ascending(e.m[j][2]) /\ Range(e.m[j][2]) = TrueMask(S, P, e.m[j][1])

(* ------------------- how sources are accessed meanwhile ------------------ *)
(* Request: a key is looked up / a cursor is moved to or read at a path /    *)
(* everything is visited.  Nothing outside of it may be touched.             *)
Request == /\ e.o = "req"
           /\ req' = CASE e.f = "key" -> [f |-> "path", p |-> P[e.k]]
                       [] e.f = "walk" -> [f |-> "path", p |-> Stepped(walk[e.c], e.l, e.x).path]
                       [] e.f = "data" -> [f |-> "path", p |-> Append(walk[e.c].path, e.x)]
                       [] e.f = "visit" -> [f |-> "visit"]
                       [] OTHER -> NoReq
           /\ UNCHANGED <<walk, scur>>
Touches(p) == IF req.f = "path" THEN IsPrefixOf(p, req.p)
              ELSE IF req.f = "visit" THEN Advertised(SRC, L.ex, P, p) ELSE FALSE
SrcNew == /\ e.o = "N" /\ scur' = (e.c :> [s |-> e.s, sel |-> 0, path |-> <<>>]) @@ scur
          /\ UNCHANGED <<walk, req>>
\* unchecked: only nodes the source itself advertises
SrcSelect ==
  /\ e.o = "S" /\ scur[e.c].s = e.s /\ e.l <= scur[e.c].sel
  /\ LET w == Stepped(scur[e.c], e.l, e.x) IN
     /\ IsTrue(/\ Touches(w.path)
               /\ e.l = 0 => e.x = 0
               /\ e.u = 1 => Advertised(SRC, <<"L", e.s>>, P, w.path))
     /\ scur' = [scur EXCEPT ![e.c] = [s |-> e.s, sel |-> w.sel, path |-> w.path]]
  /\ UNCHANGED <<walk, req>>
Has(s, path) == LET k == KeyOf(path) IN k # 0 /\ SRC[s].m[k] # 0
SrcCursorData ==
  /\ e.o = "d" /\ scur[e.c].s = e.s /\ scur[e.c].sel = L.D
  /\ LET p == Append(scur[e.c].path, e.x) IN IsTrue(Touches(p) /\ (e.u = 1 => Has(e.s, p)))
  /\ UNCHANGED <<walk, scur, req>>
SrcData ==
  /\ e.o = "D" /\ IsTrue(Touches(e.k) /\ e.li = e.k /\ (e.u = 1 => Has(e.s, e.k)))
  /\ UNCHANGED <<walk, scur, req>>

Observe == GetAll \/ Get \/ GetUnchecked \/ Iterate \/ Exactness \/ Masks \/ RefMasks \/ WalkData \/ Hints \/ Calls \/ Materialize

Step == /\ i < Len(L.ev)
        /\ \/ IsTrue(Observe) /\ UNCHANGED <<walk, scur, req>>
           \/ (NewWalk \/ WalkSelect) /\ UNCHANGED <<scur, req>>
           \/ Request \/ SrcNew \/ SrcSelect \/ SrcCursorData \/ SrcData
        /\ i' = i + 1 /\ UNCHANGED h
Done == i = Len(L.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
