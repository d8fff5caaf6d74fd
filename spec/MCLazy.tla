------------------------------- MODULE MCLazy -------------------------------
(* Exhaustive checking of LazyCursor against LazyTree within small           *)
(* constants: all walks of a cursor, iteration step by step, access without  *)
(* a cursor, materialization.  Emits every transition of every cursor.       *)
EXTENDS LazyCursor, TLC, Json

CONSTANTS W, MaxKeys, Loose, Family, Srcs, Emitting, Thin, Sample, Salt

\* all keys, ascending (written out: TLC would evaluate a recursive definition again at every use)
MCP ==
  CASE W = 2 /\ D = 1 -> <<<<0>>, <<1>>>>
    [] W = 3 /\ D = 1 -> <<<<0>>, <<1>>, <<2>>>>
    [] W = 2 /\ D = 2 -> <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>>>
    [] W = 3 /\ D = 2 -> <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<2, 1>>, <<2, 2>>>>
    [] W = 2 /\ D = 3 -> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<0, 1, 1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<1, 1, 1>>>>

L(i) == <<"L", i>>
A == <<"I", L(1), L(2)>>
O == <<"U", L(1), L(2)>>
MA == <<"MI", <<L(1), L(2)>>>>
MO == <<"MU", <<L(1), L(2)>>>>
M(c, x) == <<"M", c, x>>
F(c, x) == <<"F", c, x>>
Shapes ==
  CASE Family = "I" -> <<A, <<"I", L(1), O>>, <<"I", MO, L(2)>>, <<"I", A, A>>>>
    [] Family = "U" -> <<O, <<"U", A, L(2)>>, <<"U", L(1), MA>>, <<"U", A, MO>>>>
    [] Family = "MI" -> <<MA, <<"MI", <<O, L(2)>>>>, <<"MI", <<MO, A>>>>, <<"MI", <<L(1)>>>>, <<"MI", <<>>>>, <<"MI", <<L(2), L(1), L(2)>>>>>>
    [] Family = "MU" -> <<MO, <<"MU", <<A, L(2)>>>>, <<"MU", <<MA, O>>>>, <<"MU", <<L(1)>>>>, <<"MU", <<>>>>, <<"MU", <<L(2), L(1), L(2)>>>>, <<"MU", <<MO, A>>>>>>
    [] Family = "F" -> <<M(1, A), M(1, O), F(1, MA), F(1, MO), F(2, <<"MU", <<M(1, A), L(1)>>>>), F(1, <<"MI", <<>>>>), F(1, <<"MU", <<>>>>)>>
    [] Family = "X" -> <<<<"I", MO, MA>>, <<"U", F(1, MA), M(2, L(1))>>, <<"MI", <<F(1, MO), O>>>>, <<"MU", <<F(1, MA), A>>>>, M(2, <<"U", F(1, MO), A>>), <<"MU", <<MA, MO>>>>, <<"MI", <<MA, MO>>>>>>
    [] Family = "3" -> <<<<"MI", <<L(1), L(2), L(3)>>>>, <<"MU", <<L(1), L(2), L(3)>>>>, <<"U", <<"I", L(1), L(2)>>, L(3)>>, <<"I", <<"U", L(1), L(2)>>, L(3)>>>>

Contents == {t \in SUBSET (1..N) : Cardinality(t) <= MaxKeys}
Phantoms == IF Loose /\ D > 1 THEN {{}} \cup {{Prefix(P[k], D - 1)} : k \in 1..N} ELSE {{}}
Sources(i) == {[m |-> [k \in 1..N |-> IF k \in t THEN i ELSE 0], ph |-> f, ex |-> e] :
               <<t, f, e>> \in {y \in Contents \X Phantoms \X BOOLEAN : (y[3] => y[2] = {}) /\ (Loose \/ y[3])}}

VARIABLES src, x,
  mode,          \* "walk": a cursor driven by its user, "iter": by the iterator
  c, path, sel,  \* the cursor, where it stands, how many levels are selected
  queues, out,   \* iteration: pending digits of every level, entries so far (or "end" reached: done)
  done, res      \* res: what the last step answered
vars == <<src, x, mode, c, path, sel, queues, out, done, res>>
Nothing == [o |-> "none", ok |-> TRUE]

\* a thinned set of starting points, and of emissions (Salt: the seed)
Code(ss, xx) ==
  LET h[j \in 0..Srcs] == IF j = 0 THEN Salt ELSE
        LET b[k \in 0..N] == IF k = 0 THEN h[j - 1] * 31 + Cardinality(ss[j].ph) * 7 + (IF ss[j].ex THEN 3 ELSE 0)
                              ELSE (b[k - 1] * 5 + ss[j].m[k]) % 100003 IN b[N]
  IN h[Srcs] + 17 * (CHOOSE j \in 1..Len(Shapes) : Shapes[j] = xx)

MCInit ==
  /\ src \in {[i \in 1..Srcs |-> s[i]] : s \in (IF Srcs = 2 THEN Sources(1) \X Sources(2) ELSE Sources(1) \X Sources(2) \X Sources(3))}
  /\ x \in Range(Shapes)
  /\ Code(src, x) % Thin = 0
  /\ c = New(x) /\ path = <<>> /\ sel = 0 /\ queues = <<>> /\ out = <<>> /\ done = FALSE
  /\ mode \in {"walk", "iter"} /\ res = Nothing

Walk(l, y, un) ==
  /\ mode = "walk" /\ l <= sel /\ l < D /\ (l = 0 => y = 0)
  /\ un => Exists(src, x, At(path, l, y))
  /\ LET r == Select(src, x, c, l, y, un) IN
     /\ c' = r[1] /\ res' = [o |-> "s", b |-> r[2], ok |-> r[3], l |-> l, y |-> y, un |-> un]
  /\ path' = At(path, l, y) /\ sel' = l + 1
  /\ UNCHANGED <<src, x, mode, queues, out, done>>
Data(y, un) ==
  /\ mode = "walk" /\ sel = D
  /\ un => Exists(src, x, Append(path, y))
  /\ LET r == Read(src, x, c, y, un) IN res' = [o |-> "d", v |-> r[1], ok |-> r[2], y |-> y, un |-> un]
  /\ UNCHANGED <<src, x, mode, c, path, sel, queues, out, done>>

\* the iterator, one select or one entry at a time
Least(t) == CHOOSE y \in t : \A z \in t : y <= z
IterStart ==
  /\ mode = "iter" /\ queues = <<>>
  /\ LET r == Select(src, x, c, 0, 0, TRUE) IN
     /\ c' = r[1] /\ res' = [o |-> "i", ok |-> r[3]]
     /\ queues' = [l \in 1..D |-> IF l = 1 THEN r[2] ELSE {}]
  /\ path' = <<>> /\ UNCHANGED <<src, x, mode, sel, out, done>>
IterStep ==
  /\ mode = "iter" /\ queues # <<>> /\ ~done
  /\ IF queues[D] # {}
     THEN LET y == Least(queues[D])  r == Read(src, x, c, y, TRUE) IN
          /\ queues' = [queues EXCEPT ![D] = @ \ {y}]
          /\ out' = Append(out, <<KeyAt(Append(path, y)), r[1]>>)
          /\ res' = [o |-> "i", ok |-> r[2]]
          /\ UNCHANGED <<c, path, done>>
     ELSE LET ls == {l \in 1..(D - 1) : queues[l] # {}} IN
          IF ls = {} THEN done' = TRUE /\ res' = Nothing /\ UNCHANGED <<queues, c, path, out>>
          ELSE LET l == CHOOSE l \in ls : \A z \in ls : z <= l
                   y == IF Bug = "iter_top_down" THEN Least(queues[Least(ls)]) ELSE Least(queues[l])
                   r == Select(src, x, c, l, y, TRUE)
               IN /\ queues' = [queues EXCEPT ![l] = @ \ {y}, ![l + 1] = r[2]]
                  /\ c' = r[1] /\ path' = At(path, l, y)
                  /\ res' = [o |-> "i", ok |-> r[3]]
                  /\ UNCHANGED <<out, done>>
  /\ UNCHANGED <<src, x, mode, sel>>

Digits == 0..(W - 1)
MCNext == \/ \E l \in 0..(D - 1), y \in Digits, un \in BOOLEAN : Walk(l, y, un)
          \/ \E y \in Digits, un \in BOOLEAN : Data(y, un)
          \/ IterStart \/ IterStep
MCSpec == MCInit /\ [][MCNext]_vars
MCView == <<src, x, mode, c, path, sel, queues, out, done, IF res.ok THEN 1 ELSE res>>

(* ------------------------------ properties ------------------------------ *)
D0(k) == Den(src, x, k)
S0 == Keys(src, x, N)
Entries == SelectSeq([k \in 1..N |-> <<k, D0(k)>>], LAMBDA y : y[2] # Absent)
\* nobody below is accessed unchecked where nothing is
KeepsContract == res.ok
\* a mask depends on the selected path alone, and is right; so does and is the value
Answers == [][ /\ res'.o = "s" => /\ res'.b = MaskOf(src, x, path')
                                  /\ MaskOk(src, x, P, S0, Exact(src, x), path', res'.b)
               /\ res'.o = "d" => LET k == KeyAt(Append(path, res'.y)) IN res'.v = (IF k = 0 THEN Absent ELSE D0(k)) ]_vars
IterPrefix == mode = "iter" => out = Prefix(Entries, Len(out)) /\ Len(out) <= Len(Entries)
IterComplete == done => out = Entries
AtStart == mode = "walk" /\ c = New(x) /\ sel = 0
Direct == AtStart => \A k \in 1..N : \A un \in BOOLEAN :
            (un => D0(k) # Absent) => Look(src, x, k, un) = <<D0(k), TRUE>>
Exactness == AtStart => (Exact(src, x) => MayBeExact(src, x))
Materializes ==
  AtStart => LET b == Build(src, x, New(x), 0, 0, Exact(src, x)) IN
             /\ b[3] /\ b[2] # <<>>
             /\ Pairs(b[2], <<>>, 0) = Entries
             /\ NoEmptyNode(b[2], 0)

(* ------------------------------- emission -------------------------------- *)
Wanted == (Code(src, x) \div Thin) % Sample = 0
Id(cc, pp, ss) == ToString(<<cc, pp, ss>>)
Emit == ~Emitting \/ mode # "walk" \/ ~Wanted \/
  PrintT("@" \o ToJson([s |-> [j \in 1..Srcs |-> [m |-> src[j].m, ph |-> src[j].ph, ex |-> src[j].ex]], x |-> x,
                        a |-> Id(c, path, sel), b |-> Id(c', path', sel'),
                        o |-> IF res'.o = "s" THEN <<"s", res'.l, res'.y, res'.un>> ELSE <<"d", 0, res'.y, res'.un>>]))
=============================================================================
