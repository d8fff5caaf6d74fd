------------------------------ MODULE LazyTree ------------------------------
(* What lazy trees mean.                                                     *)
(*                                                                           *)
(* Expressions are tagged sequences                                          *)
(*   <<"L",i>>  source i          <<"I",a,b>>  intersection                  *)
(*   <<"U",a,b>> union            <<"MI",<<..>>>>  multi-intersection        *)
(*   <<"MU",<<..>>>> multi-union  <<"M",c,x>>  map with function c           *)
(*   <<"F",c,x>>  fold of the multi tree x with function c                   *)
(* A source is a record  m : 1..N -> Int (0 = absent), ph : set of extra     *)
(* digit paths its masks advertise above the lowest level (loose sources).   *)
(* Keys 1..N stand for the digit paths P[1..N]; all other keys are absent.   *)
(*                                                                           *)
(* Values are terms, flat sequences of integers:                             *)
(*   <<v>>  |  <<-1>> a b  |  <<-2>>  |  <<-3>> a  |  <<-4,n>> a1..an        *)
(*   <<-5,c>> a  |  <<-6,c,n>> a1..an ;  <<>> = no entry                     *)
(* User functions are uninterpreted: the term records which function was     *)
(* applied to what, in which order.                                          *)
EXTENDS HibitMap

Absent == <<>>
Opt(a) == IF a = Absent THEN <<-2>> ELSE <<-3>> \o a

RECURSIVE Cat(_, _)
Cat(s, j) == IF j > Len(s) THEN <<>> ELSE s[j] \o Cat(s, j + 1)
Listed(s) == <<-4, Len(s)>> \o Cat(s, 1)

(* The denotation: partial function key -> value *)
RECURSIVE Den(_, _, _)
Den(src, x, k) ==
  CASE x[1] = "L" -> IF src[x[2]].m[k] = 0 THEN Absent ELSE <<src[x[2]].m[k]>>
    [] x[1] = "I" -> LET a == Den(src, x[2], k)  b == Den(src, x[3], k)
                     IN IF a = Absent \/ b = Absent THEN Absent ELSE <<-1>> \o a \o b
    [] x[1] = "U" -> LET a == Den(src, x[2], k)  b == Den(src, x[3], k)
                     IN IF a = Absent /\ b = Absent THEN Absent ELSE <<-1>> \o Opt(a) \o Opt(b)
    [] x[1] = "MI" -> LET s == [j \in 1..Len(x[2]) |-> Den(src, x[2][j], k)]
                      IN IF s = <<>> \/ (\E j \in 1..Len(s) : s[j] = Absent) THEN Absent ELSE Listed(s)
    [] x[1] = "MU" -> LET s == SelectSeq([j \in 1..Len(x[2]) |-> Den(src, x[2][j], k)], LAMBDA t : t # Absent)
                      IN IF s = <<>> THEN Absent ELSE Listed(s)
    [] x[1] = "M" -> LET a == Den(src, x[3], k) IN IF a = Absent THEN Absent ELSE <<-5, x[2]>> \o a
    [] x[1] = "F" -> LET a == Den(src, x[3], k) IN IF a = Absent THEN Absent ELSE <<-6, x[2]>> \o SubSeq(a, 2, Len(a))

Keys(src, x, n) == {k \in 1..n : Den(src, x, k) # Absent}

(* ------------------------------- masks ---------------------------------- *)
(* Which children the hierarchy may advertise.  Intersections may advertise  *)
(* children that turn out empty, loose sources too (above the lowest level). *)
Leads(s, P, q) ==   \* may the source advertise the node (or element) q
  \/ \E k \in 1..Len(P) : s.m[k] # 0 /\ IsPrefixOf(q, P[k])
  \/ Len(q) < Len(P[1]) /\ \E y \in s.ph : IsPrefixOf(q, y)
RECURSIVE MayLead(_, _, _, _)
MayLead(src, x, P, q) ==
  CASE x[1] = "L" -> Leads(src[x[2]], P, q)
    [] x[1] = "I" -> MayLead(src, x[2], P, q) /\ MayLead(src, x[3], P, q)
    [] x[1] = "U" -> MayLead(src, x[2], P, q) \/ MayLead(src, x[3], P, q)
    [] x[1] = "MI" -> x[2] # <<>> /\ \A j \in 1..Len(x[2]) : MayLead(src, x[2][j], P, q)
    [] x[1] = "MU" -> \E j \in 1..Len(x[2]) : MayLead(src, x[2][j], P, q)
    [] x[1] \in {"M", "F"} -> MayLead(src, x[3], P, q)

\* node p is advertised: every step towards it is
RECURSIVE Advertised(_, _, _, _)
Advertised(src, x, P, p) ==
  IF p = <<>> THEN TRUE
  ELSE IF MayLead(src, x, P, p) THEN Advertised(src, x, P, SubSeq(p, 1, Len(p) - 1)) ELSE FALSE

(* May the expression be declared exact?  (Only then.)                       *)
RECURSIVE MayBeExact(_, _)
MayBeExact(src, x) ==
  CASE x[1] = "L" -> src[x[2]].ph = {}
    [] x[1] \in {"I", "MI"} -> FALSE
    [] x[1] = "U" -> MayBeExact(src, x[2]) /\ MayBeExact(src, x[3])
    [] x[1] = "MU" -> \A j \in 1..Len(x[2]) : MayBeExact(src, x[2][j])
    [] x[1] \in {"M", "F"} -> MayBeExact(src, x[3])

(* Children really below the node p: S is the set of present keys *)
TrueMask(S, P, p) == MaskAt(S, P, p)
MaskOk(src, x, P, S, exact, p, b) ==
  LET t == TrueMask(S, P, p) IN
  /\ t \subseteq b
  /\ \A d \in b : MayLead(src, x, P, Append(p, d))
  /\ exact \/ Len(p) = Len(P[1]) - 1 => b = t

(* --------------------------- user functions ----------------------------- *)
(* Function nodes (each has its own number) whose value is part of the value *)
(* at k, with how often they are called for it: <<node, inits, calls>>       *)
RECURSIVE Uses(_, _, _)
Uses(src, x, k) ==
  IF Den(src, x, k) = Absent THEN {}
  ELSE CASE x[1] = "L" -> {}
         [] x[1] \in {"I", "U"} -> Uses(src, x[2], k) \cup Uses(src, x[3], k)
         [] x[1] \in {"MI", "MU"} -> UNION {Uses(src, x[2][j], k) : j \in 1..Len(x[2])}
         [] x[1] = "M" -> {<<x[2], 0, 1>>} \cup Uses(src, x[3], k)
         [] x[1] = "F" -> {<<x[2], 1, Den(src, x[3], k)[2]>>} \cup Uses(src, x[3], k)
(* The same for values that exist in a sub-expression, but not in the whole *)
RECURSIVE MayUse(_, _, _)
MayUse(src, x, k) ==
  CASE x[1] = "L" -> {}
    [] x[1] \in {"I", "U"} -> MayUse(src, x[2], k) \cup MayUse(src, x[3], k)
    [] x[1] \in {"MI", "MU"} -> UNION {MayUse(src, x[2][j], k) : j \in 1..Len(x[2])}
    [] x[1] = "M" -> (IF Den(src, x[3], k) = Absent THEN {} ELSE {<<x[2], 0, 1>>}) \cup MayUse(src, x[3], k)
    [] x[1] = "F" -> (IF Den(src, x[3], k) = Absent THEN {} ELSE {<<x[2], 1, Den(src, x[3], k)[2]>>}) \cup MayUse(src, x[3], k)

(* calls: the set of observed <<node, inits, calls>> of one access of key k *)
CallsOk(src, x, k, calls) ==
  LET need == Uses(src, x, k) IN
  /\ need \subseteq calls
  /\ \A c \in calls \ need : \E u \in MayUse(src, x, k) :
        u[1] = c[1] /\ c[2] <= u[2] /\ c[3] <= u[3] /\ ~\E n \in need : n[1] = c[1]
=============================================================================
