------------------------------ MODULE TraceMap ------------------------------
(* Trace validation of containers: every line of the trace file is one       *)
(* recorded history of one real container; its events must be a behaviour of *)
(* the abstract container (MapSpec).                                         *)
(*                                                                           *)
(* line.K   the digit paths of the keys this history uses, ascending; events *)
(*          refer to keys by position, 0 = "an index that is none of these"  *)
(* line.ev  the calls, in order, with what they returned                     *)
(* The container's contents are m : 1..Len(K) -> Int, 0 = absent.            *)
(* A history that cannot be explained to its end deadlocks.                  *)
EXTENDS HibitMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, m
vars == <<h, i, m>>

L == Trace[h]
N == Len(L.K)

SortedPool(K, W, D) == /\ \A x \in 1..Len(K) : ValidKey(K[x], W, D)
                       /\ \A x \in 1..(Len(K) - 1) : LexLess(K[x], K[x + 1])

Init == /\ h \in 1..Len(Trace)
        /\ i = 0
        /\ m = [k \in 1..Len(Trace[h].K) |-> 0]
        /\ Assert(SortedPool(Trace[h].K, Trace[h].W, Trace[h].D), <<"bad pool", h>>)

e == L.ev[i + 1]
Present == PresentIn(m, 0)
Known(k) == k \in 1..N
NotLogged == -1
Says(reply, r) == reply = NotLogged \/ reply = r

(* ------------------------- one action per call -------------------------- *)
Insert == e.o = "ins" /\ Known(e.k) /\ m' = InsertF(m, e.k, e.v)
GetOrInsert ==
  /\ e.o = "goi" /\ Known(e.k)
  /\ Says(e.r, GetOrInsertR(m, e.k, 0, L.def))
  /\ LET m1 == GetOrInsertF(m, e.k, 0, L.def)
     IN m' = IF e.w = 0 THEN m1 ELSE ModifyF(m1, e.k, e.w, 0)
Remove == e.o = "rem" /\ Known(e.k) /\ Says(e.r, RemoveR(m, e.k)) /\ m' = RemoveF(m, e.k, 0)
Get    == e.o = "get" /\ Known(e.k) /\ e.r = m[e.k] /\ UNCHANGED m
GetAll == e.o = "all" /\ e.r = m /\ UNCHANGED m
GetMut ==
  /\ e.o = "gmu" /\ Known(e.k) /\ e.r = m[e.k]
  /\ m' = IF e.w = 0 THEN m ELSE ModifyF(m, e.k, e.w, 0)
GetOrDefault == e.o = "god" /\ Known(e.k) /\ e.r = GetOrDefaultR(m, e.k, 0, L.def) /\ UNCHANGED m
GetAllOrDefault == e.o = "alld" /\ e.r = [k \in 1..N |-> GetOrDefaultR(m, k, 0, L.def)] /\ UNCHANGED m

(* Ordered iteration: exactly the present pairs, in key order, and then      *)
(* (three further calls) nothing.                                            *)
Iterate == /\ e.o = "it"
           /\ e.e = SelectSeq([k \in 1..N |-> <<k, m[k]>>], LAMBDA x : x[2] # 0)
           /\ e.t = 3
           /\ UNCHANGED m

(* Unordered storage: the present pairs in some order, each once.            *)
StorageIs(ks, vs) == /\ Len(ks) = Len(vs)
                     /\ Len(ks) = Cardinality(Present)
                     /\ Range(ks) = Present
                     /\ \A j \in 1..Len(ks) : vs[j] = m[ks[j]]
KeyValues == e.o = "kv" /\ StorageIs(e.k, e.v) /\ UNCHANGED m
KeyValuesMut ==
  /\ e.o = "kvm" /\ StorageIs(e.k, e.v)
  /\ LET wr == Range(e.w) IN
     m' = [k \in 1..N |-> IF \E x \in wr : x[1] = k THEN (CHOOSE x \in wr : x[1] = k)[2] ELSE m[k]]

Ascending(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]
MasksAre == /\ e.o = "masks"
            /\ \A j \in 1..Len(e.e) :
                  LET x == e.e[j] IN        \* <<prefix, unchecked?, bits>>
                  Ascending(x[3]) /\ Range(x[3]) = MaskAt(Present, L.K, x[1])
            /\ UNCHANGED m

(* ------------------------------ index range ----------------------------- *)
(* Machine words are logged as all their base-W digits.                      *)
TopDigit(n) == IF n = 11 THEN 15 ELSE IF n = 10 THEN 1 ELSE 255  \* of the largest word: 64 = 10*6+4 = 9*7+1 = 7*8+8
MaxWord(n) == [j \in 1..n |-> IF j = 1 THEN TopDigit(n) ELSE L.W - 1]
RangeEnd(n) == IF L.D >= n THEN MaxWord(n) ELSE [j \in 1..n |-> IF j = n - L.D THEN 1 ELSE 0]
Inside(g) == LexLess(g, RangeEnd(Len(g)))
IndexRange == e.o = "rng" /\ e.g = RangeEnd(Len(e.g)) /\ UNCHANGED m
\* a checked operation panics (r = 1) exactly for indices outside
Checked == e.o = "oor" /\ (e.r = 1) = ~Inside(e.g) /\ UNCHANGED m

(* --------------------- many operations in one event --------------------- *)
InsertMany == /\ e.o = "insn"
              /\ m' = [k \in 1..N |-> IF k \in e.a..e.b THEN e.s + k ELSE m[k]]
RemoveMany == /\ e.o = "remn"
              /\ e.r = SubSeq(m, e.a, e.b)
              /\ m' = [k \in 1..N |-> IF k \in e.a..e.b THEN 0 ELSE m[k]]

(* n rounds of "insert all of a..b, then remove all of a..b": every removal  *)
(* must have returned what the round inserted.                               *)
Cycle == /\ e.o = "cyc"
         /\ e.r = [j \in 1..(e.b - e.a + 1) |-> <<e.s + e.a + j - 1>>]
         /\ m' = [k \in 1..N |-> IF k \in e.a..e.b THEN 0 ELSE m[k]]

(* ------------- the container is replaced by a materialized one ---------- *)
Both(a, b) == a # 0 /\ b # 0
Mat(f, s, k) ==
  CASE f = "map" \/ f = "maps" -> s[1][k]
    [] f = "and" \/ f = "ands" -> IF Both(s[1][k], s[2][k]) THEN s[2][k] ELSE 0
    [] f = "or"   -> IF s[1][k] # 0 THEN s[1][k] ELSE s[2][k]
    [] f = "nand" -> IF Both(s[1][k], s[2][k]) THEN s[2][k] ELSE s[3][k]
    [] f = "mor"  -> s[1][k] + s[2][k] + s[3][k]
    [] f = "mand" -> IF Both(s[1][k], s[2][k]) /\ s[3][k] # 0 THEN s[1][k] + s[2][k] + s[3][k] ELSE 0
Materialize == e.o = "mat" /\ m' = [k \in 1..N |-> Mat(e.f, e.s, k)]

Step == /\ i < Len(L.ev)
        /\ \/ Insert \/ GetOrInsert \/ Remove \/ Get \/ GetAll \/ GetMut
           \/ GetOrDefault \/ GetAllOrDefault
           \/ Iterate \/ KeyValues \/ KeyValuesMut \/ MasksAre
           \/ IndexRange \/ Checked \/ InsertMany \/ RemoveMany \/ Cycle \/ Materialize
        /\ i' = i + 1 /\ UNCHANGED h
Done == i = Len(L.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
