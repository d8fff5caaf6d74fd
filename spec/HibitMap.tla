------------------------------ MODULE HibitMap ------------------------------
(* Pure vocabulary shared by every other module: what a tree of digit-path  *)
(* keys *means*.                                                            *)
(*                                                                          *)
(* A tree of node width W and depth D maps keys to values.  A key is its    *)
(* digit path, a sequence of D digits 0..W-1, most significant first.  In   *)
(* the operators below keys are denoted by elements of DOMAIN m; P[k] is    *)
(* the digit path of k.  m[k] = NoVal means "absent".                       *)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[x] : x \in DOMAIN f}

(* ------------------------------ digit paths ----------------------------- *)
Prefix(s, n) == SubSeq(s, 1, n)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]

RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLessFrom(a, b, i + 1)
\* Numeric order of keys of equal length is the lexicographic order of digit paths.
LexLess(a, b) == LexLessFrom(a, b, 1)

ValidKey(s, W, D) == Len(s) = D /\ \A i \in 1..D : s[i] \in 0..(W - 1)

(* A raw machine word as digits in base W, most significant first, fixed   *)
(* length L >= D.  It is inside the index range of a (W,D) tree iff all    *)
(* digits above the D lowest are 0 -- except that the bound saturates at   *)
(* the largest word, which itself is therefore always outside.             *)
InRange(g, D) == /\ \A i \in 1..(Len(g) - D) : g[i] = 0

(* ------------------------------- contents ------------------------------- *)
PresentIn(mm, none) == {k \in DOMAIN mm : mm[k] # none}

\* Next-state functions and replies of the container operations.
InsertF(mm, k, v)                == [mm EXCEPT ![k] = v]
RemoveF(mm, k, none)             == [mm EXCEPT ![k] = none]
RemoveR(mm, k)                   == mm[k]
GetOrInsertF(mm, k, none, def)   == IF mm[k] = none THEN [mm EXCEPT ![k] = def] ELSE mm
GetOrInsertR(mm, k, none, def)   == IF mm[k] = none THEN def ELSE mm[k]
ModifyF(mm, k, v, none)          == IF mm[k] = none THEN mm ELSE [mm EXCEPT ![k] = v]
GetOrDefaultR(mm, k, none, def)  == IF mm[k] = none THEN def ELSE mm[k]

(* The exact mask of the node reached by digit prefix p: which next digits  *)
(* lead to at least one entry.                                              *)
MaskAt(S, P, p) == {P[k][Len(p) + 1] : k \in {x \in S : IsPrefixOf(p, P[x])}}

(* ----------------------------- sequences -------------------------------- *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i)    == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* Vec::swap_remove
SwapRemove(s, i)  == IF i = Len(s) THEN SubSeq(s, 1, Len(s) - 1)
                     ELSE [SubSeq(s, 1, Len(s) - 1) EXCEPT ![i] = s[Len(s)]]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
=============================================================================
