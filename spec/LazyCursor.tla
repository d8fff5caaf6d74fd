----------------------------- MODULE LazyCursor -----------------------------
(* How lazy trees are evaluated: the cursors of every operator, iteration    *)
(* and materialization, over the same expressions as LazyTree.  Sources keep *)
(* LazyTree's contract; `ok` records whether the operators keep it towards   *)
(* their sources: what is accessed unchecked exists.                         *)
EXTENDS LazyTree

CONSTANTS D, P, Bug
N == Len(P)
Terminal(l) == l = D - 1
\* the path of the node selected at level l, digit y, by a cursor standing at path p
At(p, l, y) == IF l = 0 THEN <<>> ELSE Append(Prefix(p, l - 1), y)
KeyAt(q) == CHOOSE k \in 0..N : IF k = 0 THEN ~\E j \in 1..N : P[j] = q ELSE P[k] = q
ValueAt(s, q) == LET k == KeyAt(q) IN IF k = 0 \/ s.m[k] = 0 THEN Absent ELSE <<s.m[k]>>
Children(s, p) == {P[k][Len(p) + 1] : k \in {y \in 1..N : IsPrefixOf(p, P[y]) /\ Leads(s, P, Prefix(P[y], Len(p) + 1))}}
Nodes(s, x, p) == Advertised(s, x, P, p)

\* TLC evaluates a function constructor anew at every application; this makes it a value
Force(f) == SubSeq(f, 1, Len(f))
All(rs, j) == \A y \in 1..Len(rs) : rs[y][j]
RECURSIVE Cup(_, _)
Cup(rs, n) == IF n = 0 THEN {} ELSE rs[n][2] \cup Cup(rs, n - 1)
RECURSIVE Cap(_, _)
Cap(rs, n) == IF n = 1 THEN rs[1][2] ELSE rs[n][2] \cap Cap(rs, n - 1)

\* those of who whose mask is not empty
RECURSIVE Picked(_, _, _)
Picked(who, rs, i) == IF i > Len(who) THEN <<>> ELSE (IF rs[i][2] = {} THEN <<>> ELSE <<who[i]>>) \o Picked(who, rs, i + 1)

(* ------------------------------- cursors -------------------------------- *)
RECURSIVE New(_)
New(x) ==
  CASE x[1] = "L" -> <<<<>>>>
    [] x[1] \in {"I", "U"} -> <<New(x[2]), New(x[3])>>
    [] x[1] \in {"M", "F"} -> New(x[3])
    [] x[1] = "MI" -> <<Force([j \in 1..Len(x[2]) |-> New(x[2][j])]), {}, D>>        \* cursors, mask of the lowest node, first empty level
    [] x[1] = "MU" -> <<Force([j \in 1..Len(x[2]) |-> New(x[2][j])]), {}, Force([l \in 1..(D - 1) |-> <<>>])>>  \* .., who is non-empty at each level below the root

(* Select(sources, expression, cursor, level, digit, unchecked):             *)
(*   <<new cursor, mask, ok>>                                                *)
RECURSIVE Select(_, _, _, _, _, _)
Select(s, x, c, l, y, un) ==
  CASE x[1] = "L" ->
         LET p == At(c[1], l, y) IN
         <<<<p>>, IF Nodes(s, x, p) THEN Children(s[x[2]], p) ELSE {}, un => Nodes(s, x, p)>>
    [] x[1] = "I" ->
         LET a == Select(s, x[2], c[1], l, y, un)  b == Select(s, x[3], c[2], l, y, un)
         IN <<<<a[1], b[1]>>, a[2] \cap b[2], a[3] /\ b[3]>>
    [] x[1] = "U" ->
         LET v == un /\ Bug = "union_unchecked"
             a == Select(s, x[2], c[1], l, y, v)  b == Select(s, x[3], c[2], l, y, v)
         IN <<<<a[1], b[1]>>, a[2] \cup b[2], a[3] /\ b[3]>>
    [] x[1] \in {"M", "F"} -> Select(s, x[3], c, l, y, un)
    [] x[1] = "MI" ->
         IF Bug = "early_exit" /\ ~un /\ l > c[3] THEN <<c, {}, TRUE>>
         ELSE IF x[2] = <<>> THEN <<c, {}, TRUE>>
         ELSE LET rs == Force([j \in 1..Len(x[2]) |-> Select(s, x[2][j], c[1][j], l, y, un)])
                  m == Cap(rs, Len(rs))
                  stale == Bug = "unchecked_no_mask" /\ un
              IN <<<<Force(Force([j \in 1..Len(rs) |-> rs[j][1]])), IF Terminal(l) /\ ~stale THEN m ELSE c[2],
                     IF Bug # "early_exit" THEN c[3] ELSE IF m = {} THEN l ELSE D>>, m, All(rs, 3)>>
    [] x[1] = "MU" ->
         \* only those that were not empty one level above are moved
         LET who == IF l <= 1 THEN [j \in 1..Len(x[2]) |-> j] ELSE c[3][l - 1]
             rs == Force([i \in 1..Len(who) |-> Select(s, x[2][who[i]], c[1][who[i]], l, y, FALSE)])
             m == Cup(rs, Len(rs))
             some == Picked(who, rs, 1)
             cs == Force([j \in 1..Len(x[2]) |-> LET i == {i \in 1..Len(who) : who[i] = j} IN IF i = {} THEN c[1][j] ELSE rs[CHOOSE y1 \in i : TRUE][1]])
         IN <<<<cs,
                IF Terminal(l) THEN m ELSE c[2],
                IF l = 0 THEN c[3]
                ELSE Force([c[3] EXCEPT ![l] = IF Bug = "keep_states" THEN c[3][l] \o SelectSeq(some, LAMBDA j : j \notin Range(c[3][l])) ELSE some])>>,
              m, All(rs, 3)>>

(* Read(sources, expression, cursor, digit, unchecked): <<value, ok>>        *)
RECURSIVE Read(_, _, _, _, _)
Read(s, x, c, y, un) ==
  CASE x[1] = "L" -> LET v == ValueAt(s[x[2]], Append(c[1], y)) IN <<v, un => v # Absent>>
    [] x[1] = "I" ->
         LET a == Read(s, x[2], c[1], y, un)  b == Read(s, x[3], c[2], y, un)
         IN <<IF a[1] = Absent \/ b[1] = Absent THEN Absent ELSE <<-1>> \o a[1] \o b[1], a[2] /\ b[2]>>
    [] x[1] = "U" ->
         LET a == Read(s, x[2], c[1], y, FALSE)  b == Read(s, x[3], c[2], y, FALSE)
             v == IF a[1] = Absent /\ b[1] = Absent THEN Absent ELSE <<-1>> \o Opt(a[1]) \o Opt(b[1])
         IN <<v, a[2] /\ b[2] /\ (un => v # Absent)>>
    [] x[1] = "M" -> LET a == Read(s, x[3], c, y, un) IN <<IF a[1] = Absent THEN Absent ELSE <<-5, x[2]>> \o a[1], a[2]>>
    [] x[1] = "F" -> LET a == Read(s, x[3], c, y, un) IN <<IF a[1] = Absent THEN Absent ELSE <<-6, x[2]>> \o SubSeq(a[1], 2, Len(a[1])), a[2]>>
    [] x[1] = "MI" ->
         IF ~un /\ y \notin c[2] THEN <<Absent, TRUE>>
         ELSE LET rs == Force([j \in 1..Len(x[2]) |-> Read(s, x[2][j], c[1][j], y, TRUE)])
              IN <<Listed(Force([j \in 1..Len(rs) |-> rs[j][1]])), All(rs, 2)>>
    [] x[1] = "MU" ->
         IF y \notin c[2] THEN <<Absent, ~un>>
         ELSE LET who == IF D = 1 THEN [j \in 1..Len(x[2]) |-> j] ELSE c[3][D - 1]
                  rs == Force([j \in 1..Len(who) |-> Read(s, x[2][who[j]], c[1][who[j]], y, FALSE)])
                  vs == SelectSeq([j \in 1..Len(rs) |-> rs[j][1]], LAMBDA t : t # Absent)
              IN <<Listed(vs), All(rs, 2)>>

(* Look(sources, expression, key, unchecked): access without a cursor        *)
RECURSIVE Look(_, _, _, _)
Look(s, x, k, un) ==
  CASE x[1] = "L" -> LET v == ValueAt(s[x[2]], P[k]) IN <<v, un => v # Absent>>
    [] x[1] = "I" ->
         LET a == Look(s, x[2], k, un)  b == Look(s, x[3], k, un)
         IN <<IF a[1] = Absent \/ b[1] = Absent THEN Absent ELSE <<-1>> \o a[1] \o b[1], a[2] /\ b[2]>>
    [] x[1] = "U" ->
         LET a == Look(s, x[2], k, FALSE)  b == Look(s, x[3], k, FALSE)
             v == IF a[1] = Absent /\ b[1] = Absent THEN Absent ELSE <<-1>> \o Opt(a[1]) \o Opt(b[1])
         IN <<v, a[2] /\ b[2] /\ (un => v # Absent)>>
    [] x[1] = "M" -> LET a == Look(s, x[3], k, un) IN <<IF a[1] = Absent THEN Absent ELSE <<-5, x[2]>> \o a[1], a[2]>>
    [] x[1] = "F" -> LET a == Look(s, x[3], k, un) IN <<IF a[1] = Absent THEN Absent ELSE <<-6, x[2]>> \o SubSeq(a[1], 2, Len(a[1])), a[2]>>
    [] x[1] = "MI" ->
         LET rs == Force([j \in 1..Len(x[2]) |-> Look(s, x[2][j], k, un)])
         IN <<IF rs = <<>> \/ (\E j \in 1..Len(rs) : rs[j][1] = Absent) THEN Absent ELSE Listed(Force([j \in 1..Len(rs) |-> rs[j][1]])), All(rs, 2)>>
    [] x[1] = "MU" ->
         LET rs == Force([j \in 1..Len(x[2]) |-> Look(s, x[2][j], k, FALSE)])
             vs == SelectSeq([j \in 1..Len(rs) |-> rs[j][1]], LAMBDA t : t # Absent)
         IN <<IF vs = <<>> THEN Absent ELSE Listed(vs), All(rs, 2)>>

\* the mask of node p, by a fresh cursor
RECURSIVE Down(_, _, _, _, _)
Down(s, x, c, p, l) ==
  LET r == Select(s, x, c, l, IF l = 0 THEN 0 ELSE p[l], FALSE)
  IN IF l = Len(p) THEN r[2] ELSE Down(s, x, r[1], p, l + 1)
MaskOf(s, x, p) == Down(s, x, New(x), p, 0)
\* every step towards p is reported
Exists(s, x, p) == \A l \in 1..Len(p) : p[l] \in MaskOf(s, x, Prefix(p, l - 1))

(* How the code decides whether an expression is exact                       *)
RECURSIVE Exact(_, _)
Exact(s, x) ==
  CASE x[1] = "L" -> s[x[2]].ex
    [] x[1] = "I" -> FALSE
    [] x[1] = "U" -> Exact(s, x[2]) /\ Exact(s, x[3])
    [] x[1] = "MI" -> FALSE
    [] x[1] = "MU" -> \A j \in 1..Len(x[2]) : Exact(s, x[2][j])
    [] x[1] \in {"M", "F"} -> Exact(s, x[3])

(* ---------------------------- materialization ---------------------------- *)
(* Build(..): <<cursor, node, ok>>, node = <<>> (none) or                    *)
(* <<mask, children>> / <<mask, values>>, both ascending                     *)
RECURSIVE Sorted(_)
Sorted(t) == IF t = {} THEN <<>> ELSE LET y == CHOOSE y \in t : \A z \in t : y <= z IN <<y>> \o Sorted(t \ {y})
RECURSIVE Build(_, _, _, _, _, _)
RECURSIVE Kids(_, _, _, _, _, _, _)
Build(s, x, c, l, y, exact) ==
  LET r == Select(s, x, c, l, y, TRUE)
      ds == Sorted(r[2])
  IN IF Terminal(l)
     THEN IF ~exact /\ l # 0 /\ ds = <<>> /\ Bug # "keep_empty" THEN <<r[1], <<>>, r[3]>>
          ELSE LET vs == Force([j \in 1..Len(ds) |-> Read(s, x, r[1], ds[j], TRUE)])
               IN <<r[1], <<r[2], [j \in 1..Len(vs) |-> vs[j][1]]>>, r[3] /\ All(vs, 2)>>
     ELSE LET k == Kids(s, x, r[1], l, ds, exact, r[3])   \* <<cursor, nodes, ok>>
              have == {j \in 1..Len(ds) : k[2][j] # <<>>}
              nodes == SelectSeq(k[2], LAMBDA t : t # <<>>)
          IN IF exact THEN <<k[1], <<r[2], k[2]>>, k[3]>>
             ELSE IF l # 0 /\ nodes = <<>> THEN <<k[1], <<>>, k[3]>>
             ELSE <<k[1], <<{ds[j] : j \in have}, nodes>>, k[3]>>
Kids(s, x, c, l, ds, exact, ok) ==
  IF ds = <<>> THEN <<c, <<>>, ok>>
  ELSE LET a == Build(s, x, c, l + 1, Head(ds), exact)
           b == Kids(s, x, a[1], l, Tail(ds), exact, ok /\ a[3])
       IN <<b[1], <<a[2]>> \o b[2], b[3]>>

\* what a built tree holds
RECURSIVE Pairs(_, _, _)
RECURSIVE PairsOf(_, _, _, _)
Pairs(node, p, l) ==
  IF node = <<>> THEN <<>> ELSE PairsOf(node, p, l, 1)
PairsOf(node, p, l, j) ==
  LET ds == Sorted(node[1]) IN
  IF j > Len(ds) THEN <<>>
  ELSE (IF Terminal(l) THEN <<<<KeyAt(Append(p, ds[j])), node[2][j]>>>> ELSE Pairs(node[2][j], Append(p, ds[j]), l + 1))
       \o PairsOf(node, p, l, j + 1)
RECURSIVE NoEmptyNode(_, _)
NoEmptyNode(node, l) ==
  /\ l = 0 \/ node[1] # {}
  /\ Cardinality(node[1]) = Len(node[2])
  /\ Terminal(l) \/ \A j \in 1..Len(node[2]) : NoEmptyNode(node[2][j], l + 1)
=============================================================================
