------------------------------ MODULE SparseTree ------------------------------
(* Structural model of the uncompressed tree (SparseTree).                    *)
(*                                                                            *)
(* lv[l] (l = 1..D) is the block vector of level l-1.  The root level has one *)
(* block.  In the others block 1 (implementation index 0) is the shared empty *)
(* block.  A block has a mask and, for every digit, the child's index in the  *)
(* next level (or a data slot), 1 meaning "none".  Emptied blocks are put on  *)
(* an intrusive free list whose link overwrites the block's mask; free[l] is  *)
(* its head (0 = empty).  Data is as in DenseTree, plus for every data slot   *)
(* the position (block, digit) of the pointer to it.                          *)
(* CapIx[l] is the largest child index the integer type of level l can hold.  *)
EXTENDS HibitMap, TLC

CONSTANTS W, D, Keys, Vals, NoVal, Default, CapIx, Bug

VARIABLES lv, free, data, keys, back
vars == <<lv, free, data, keys, back>>

Digits == 0..(W - 1)
NONE == 1
NoKey == <<W>>
EmptyBlock == [mask |-> {}, link |-> 0, ix |-> [d \in Digits |-> NONE]]

Init ==
  /\ lv = [l \in 1..D |-> <<EmptyBlock>>]
  /\ free = [l \in 1..D |-> 0]
  /\ data = <<Default>>             \* slot 1: the default element
  /\ keys = <<NoKey>>
  /\ back = <<<<1, 0>>>>

\* integer truncation of a child index (0-based in the implementation)
Fit(l, i) == IF i - 1 <= CapIx[l] THEN i ELSE ((i - 1) % (CapIx[l] + 1)) + 1

RECURSIVE PathBlocks(_, _, _, _)
\* child indices met on the way down: <<c_1, ..., c_D>>, c_D = data slot
PathBlocks(v, l, b, k) ==
  LET c == v[l][b].ix[k[l]] IN
  IF l = D THEN <<c>> ELSE <<c>> \o PathBlocks(v, l + 1, c, k)

SlotOf(k) == PathBlocks(lv, 1, 1, k)[D]
Has(k) == SlotOf(k) # NONE
Lookup(k) == IF Has(k) THEN data[SlotOf(k)] ELSE NoVal

\* take an empty block of level l: from the free list or freshly pushed. <<v', f', index>>
TakeBlock(v, f, l) ==
  IF f[l] # 0
  THEN <<[v EXCEPT ![l][f[l]].link = 0, ![l][f[l]].mask = {}],
         [f EXCEPT ![l] = v[l][f[l]].link], f[l]>>
  ELSE <<[v EXCEPT ![l] = Append(@, EmptyBlock)], f, Len(v[l]) + 1>>

SetChild(v, l, b, d, c) == [v EXCEPT ![l][b].mask = @ \cup {d}, ![l][b].ix[d] = Fit(l, c)]

\* make the blocks of k's path exist; returns <<v', f', terminal block>>
RECURSIVE Build(_, _, _, _, _)
Build(v, f, l, b, k) ==
  IF l = D THEN <<v, f, b>>
  ELSE LET c == v[l][b].ix[k[l]] IN
       IF c # NONE THEN Build(v, f, l + 1, c, k)
       ELSE LET t == TakeBlock(v, f, l + 1)
            IN Build(SetChild(t[1], l, b, k[l], t[3]), t[2], l + 1, t[3], k)

Put2(k, x, overwrite) ==
  IF Has(k)
  THEN /\ data' = IF overwrite THEN [data EXCEPT ![SlotOf(k)] = x] ELSE data
       /\ UNCHANGED <<lv, free, keys, back>>
  ELSE LET r == Build(lv, free, 1, 1, k)
           i == Len(data) + 1
       IN /\ lv' = SetChild(r[1], D, r[3], k[D], i)
          /\ free' = r[2]
          /\ data' = Append(data, x)
          /\ keys' = Append(keys, k)
          /\ back' = Append(back, <<r[3], k[D]>>)

Insert(k, v)   == Put2(k, v, TRUE)
GetOrInsert(k) == Put2(k, Default, FALSE)
GetOrInsertPanics(k) ==
  /\ ~Has(k)
  /\ LET r == Build(lv, free, 1, 1, k) IN lv' = r[1] /\ free' = r[2]
  /\ UNCHANGED <<data, keys, back>>

\* clear digit at level l of k's path; give back emptied blocks (not the root)
RECURSIVE Clear(_, _, _, _, _)
Clear(v, f, l, k, cs) ==
  LET b  == IF l = 1 THEN 1 ELSE cs[l - 1]
      v1 == [v EXCEPT ![l][b].mask = @ \ {k[l]},
                      ![l][b].ix[k[l]] = IF Bug = "stale_index" THEN @ ELSE NONE]
  IN IF v1[l][b].mask # {} THEN <<v1, f>>
     ELSE IF l = 1 THEN <<v1, f>>
     ELSE LET v2 == [v1 EXCEPT ![l][b].link = f[l]]
              f2 == IF Bug = "lost_block" THEN f ELSE [f EXCEPT ![l] = b]
          IN Clear(v2, f2, l - 1, k, cs)

Remove(k) ==
  IF ~Has(k) THEN UNCHANGED vars
  ELSE LET cs   == PathBlocks(lv, 1, 1, k)
           slot == cs[D]
           c    == Clear(lv, free, D, k, cs)
           last == back[Len(back)]
           moved == slot # Len(data)
       IN /\ lv' = IF moved THEN [c[1] EXCEPT ![D][last[1]].ix[last[2]] = slot] ELSE c[1]
          /\ free' = c[2]
          /\ back' = IF Bug = "back_not_moved" THEN SubSeq(back, 1, Len(back) - 1)
                     ELSE SwapRemove(back, slot)
          /\ keys' = SwapRemove(keys, slot)
          /\ data' = SwapRemove(data, slot)

Modify(k, v) ==
  IF ~Has(k) THEN UNCHANGED vars
  ELSE data' = [data EXCEPT ![SlotOf(k)] = v] /\ UNCHANGED <<lv, free, keys, back>>

Next == \E k \in Keys : \/ \E v \in Vals : Insert(k, v) \/ Modify(k, v)
                        \/ GetOrInsert(k)
                        \/ Remove(k)
Spec == Init /\ [][Next]_vars
NextFaulty == Next \/ \E k \in Keys : GetOrInsertPanics(k)
FaultySpec == Init /\ [][NextFaulty]_vars

(* ------------------------------ properties ------------------------------ *)
RECURSIVE Reach(_, _)
Reach(l, b) == {<<l, b>>} \cup
   (IF l = D THEN {} ELSE UNION {Reach(l + 1, lv[l][b].ix[d]) : d \in lv[l][b].mask})
Reachable == Reach(1, 1)

RECURSIVE FreeChain(_, _)
FreeChain(l, b) == IF b = 0 THEN <<>> ELSE <<b>> \o FreeChain(l, lv[l][b].link)

WellFormed ==
  /\ \A lb \in Reachable : \A d \in Digits :
        (d \in lv[lb[1]][lb[2]].mask) <=> (lv[lb[1]][lb[2]].ix[d] # NONE)
  /\ \A l \in 2..D : lv[l][1] = EmptyBlock                       \* shared empty block untouched
  /\ Len(keys) = Len(data) /\ Len(back) = Len(data)
  /\ data[1] = Default
  /\ \A i \in 2..Len(back) : lv[D][back[i][1]].ix[back[i][2]] = i

(* Every block is the shared empty one, in use, or exactly once on the free  *)
(* list; free blocks have no children.                                       *)
BlocksAccounted == \A l \in 2..D :
  LET used == {lb[2] : lb \in {x \in Reachable : x[1] = l}}
      fc   == FreeChain(l, free[l])
  IN /\ Distinct(fc)
     /\ used \cap Range(fc) = {} /\ 1 \notin (used \cup Range(fc))
     /\ used \cup Range(fc) = 2..Len(lv[l])
     /\ \A b \in Range(fc) : \A d \in Digits : lv[l][b].ix[d] = NONE

ExactNodes == \A lb \in Reachable : lb[1] # 1 => lv[lb[1]][lb[2]].mask # {}
EveryEntryReachable == \A i \in 2..Len(keys) : SlotOf(keys[i]) = i /\ keys[i] \in Keys
DistinctKeys == Distinct(keys)

AbsMap == [k \in Keys |-> Lookup(k)]
S == {keys[i] : i \in 2..Len(keys)}
GetOrDefaultCorrect == \A k \in Keys : data[SlotOf(k)] = (IF k \in S THEN AbsMap[k] ELSE Default)

RECURSIVE MaskFrom(_, _, _)
MaskFrom(l, b, p) == IF Len(p) = l - 1 THEN lv[l][b].mask
                     ELSE MaskFrom(l + 1, lv[l][b].ix[p[l]], p)
Prefixes == {Prefix(k, n) : k \in Keys, n \in 0..(D - 1)}
MasksExact == \A p \in Prefixes : MaskFrom(1, 1, p) = MaskAt(S, [k \in Keys |-> k], p)
MasksSound == \A p \in Prefixes :
    LET t == MaskAt(S, [k \in Keys |-> k], p) x == MaskFrom(1, 1, p)
    IN t \subseteq x /\ (Len(p) = D - 1 => t = x)

Abs == INSTANCE MapSpec WITH m <- AbsMap
Refines == Abs!Spec
=============================================================================
