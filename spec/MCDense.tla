------------------------------ MODULE MCDense ------------------------------
(* Exhaustive checking of DenseTree within small constants, and emission of  *)
(* one test script per transition (Emit).                                    *)
EXTENDS DenseTree, Json

CONSTANTS KeySet, Faulty, Fresh, Emitting
ASSUME KeySet \in {1, 2, 3, 4}

MCKeys ==
  CASE D = 1 -> {<<d>> : d \in 0..(W - 1)}
    [] D = 2 -> (CASE KeySet = 1 -> {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<2, 2>>}
                  [] KeySet = 2 -> {<<1, 1>>, <<0, 2>>, <<1, 0>>, <<2, 0>>, <<1, 2>>}
                  [] KeySet = 3 -> {<<0, 0>>, <<0, 2>>, <<1, 1>>, <<2, 0>>})
    [] D = 3 -> (CASE KeySet = 1 -> {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 0>>, <<1, 2, 2>>}
                  [] KeySet = 2 -> {<<0, 2, 1>>, <<0, 2, 2>>, <<2, 1, 1>>, <<2, 2, 0>>, <<1, 1, 1>>}
                  [] KeySet = 3 -> {<<0, 0, 0>>, <<0, 2, 1>>, <<0, 2, 2>>, <<2, 0, 0>>})

VARIABLE hist      \* script that led here; hidden by the view
\* Fresh: every write uses a new value and the view ignores values (the containers never look at them)
MCVals == IF Fresh THEN {Len(hist) + 10} ELSE Vals
mcvars == <<vars, hist>>

(* Addresses are immaterial: the view is the tree they span (plus the       *)
(* addresses of leaked nodes, so that a leak is never hidden).              *)
RECURSIVE Canon(_, _)
Canon(a, l) ==
  IF a <= 0 \/ a \notin DOMAIN heap THEN <<a>>
  ELSE LET n == heap[a] IN
       IF Term(l) THEN <<n.mask, n.cap, n.kids>>
       ELSE <<n.mask, n.cap, [i \in 1..Len(n.kids) |-> Canon(n.kids[i], l + 1)]>>
MCView == <<Canon(root, 0), IF Fresh THEN <<>> ELSE data, keys, Cardinality(DOMAIN heap)>>

MCInit == Init /\ hist = <<>>
Op(k, name, v) == hist' = Append(hist, <<name, k, v>>)
MCNext ==
  \E k \in Keys :
    \/ \E v \in MCVals : Insert(k, v) /\ Op(k, "ins", v)
    \/ GetOrInsert(k) /\ Op(k, "goi", 0)
    \/ Remove(k) /\ Op(k, "rem", 0)
    \/ \E v \in MCVals : Modify(k, v) /\ Op(k, "mod", v)
    \/ Faulty /\ GetOrInsertPanics(k) /\ Op(k, "gop", 0)
MCSpec == MCInit /\ [][MCNext]_mcvars

(* Refinement: every step changes the abstract contents exactly as the named *)
(* container operation does.                                                 *)
Apply(mm, o) ==
  CASE o[1] = "ins" -> InsertF(mm, o[2], o[3])
    [] o[1] = "goi" -> GetOrInsertF(mm, o[2], NoVal, Default)
    [] o[1] = "rem" -> RemoveF(mm, o[2], NoVal)
    [] o[1] = "mod" -> ModifyF(mm, o[2], o[3], NoVal)
    [] o[1] = "gop" -> mm
LastOp == hist'[Len(hist')]
MCRefines == (\A k \in Keys : AbsMap[k] = NoVal) /\ [][AbsMap' = Apply(AbsMap, LastOp)]_hist

(* One line per transition: the script, and what the specification demands   *)
(* afterwards.                                                               *)
Reply(o) == CASE o[1] = "rem" -> Lookup(o[2])
              [] o[1] = "goi" -> GetOrInsertR(AbsMap, o[2], NoVal, Default)
              [] OTHER -> NoVal
RECURSIVE SortKeys(_)
SortKeys(ks) == IF ks = {} THEN <<>>
                ELSE LET f == CHOOSE k \in ks : \A x \in ks : x = k \/ LexLess(k, x)
                     IN <<f>> \o SortKeys(ks \ {f})
RECURSIVE SortInts(_)
SortInts(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o SortInts(s \ {x})
Demand(mm) ==
  LET S2 == PresentIn(mm, NoVal) ks == SortKeys(S2) IN
  [it |-> [j \in 1..Len(ks) |-> <<ks[j], mm[ks[j]]>>],
   mk |-> {<<p, SortInts(MaskAt(S2, [k \in Keys |-> k], p))>> : p \in Prefixes}]
Emit == ~Emitting \/
  LET o == LastOp mm == Apply(AbsMap, o) dm == Demand(mm) IN
  PrintT("@" \o ToJson([h |-> hist', r |-> Reply(o), ks |-> Keys, it |-> dm.it, mk |-> dm.mk]))
=============================================================================
