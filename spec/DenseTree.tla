------------------------------ MODULE DenseTree ------------------------------
(* Structural model of the compressed tree (DenseTree).                      *)
(*                                                                           *)
(* heap:  address -> node [mask, cap, kids]                                  *)
(*   kids is the dense child array: one entry per set mask bit, in digit     *)
(*   order, plus ONE trailing entry, the "empty child".  Looking a digit up  *)
(*   counts the mask bits below it, so an absent digit lands on a neighbour  *)
(*   or on the empty child: lookups always reach SOME data slot and must     *)
(*   compare the stored key.                                                 *)
(*   Inserting into a full node doubles its capacity and may move it         *)
(*   (modelled as: always moves to another address).                         *)
(* data/keys: entries; slot 1 is the placeholder every miss ends in          *)
(*   (implementation slot 0, key usize::MAX); removal swaps with the last.   *)
(*                                                                           *)
(* Addresses: positive = heap; -l = the static empty node of level l.        *)
EXTENDS HibitMap, TLC

CONSTANTS W, D, Keys, Vals, NoVal, Default, Bug

VARIABLES heap, root, data, keys
vars == <<heap, root, data, keys>>

PH == 1                                   \* placeholder data slot
NoKey == <<W>>                            \* usize::MAX
Term(l) == l = D - 1
EmptyKid(l) == IF Term(l) THEN PH ELSE -(l + 1)   \* trailing child of a level-l node
EmptyNode(l) == [mask |-> {}, cap |-> 1, kids |-> <<EmptyKid(l)>>]
Node(h, a) == IF a > 0 THEN h[a] ELSE EmptyNode(-a)

FreeAddr(h) == CHOOSE a \in 1..(Cardinality(DOMAIN h) + 1) :
               /\ a \notin DOMAIN h
               /\ \A b \in 1..(a - 1) : b \in DOMAIN h
Alloc(h, a, n) == (a :> n) @@ h
Free(h, a) == [b \in DOMAIN h \ {a} |-> h[b]]

Dense(mask, d) == Cardinality({x \in mask : x < d}) + 1     \* position in kids
Child(n, d) == n.kids[Dense(n.mask, d)]

NewNode(l) == [mask |-> {}, cap |-> 2, kids |-> <<EmptyKid(l)>>]

(* insert a child; returns <<heap', address'>> *)
NodeInsert(h, a, d, x) ==
  LET n    == h[a]
      full == Len(n.kids) = n.cap
      a2   == IF full THEN FreeAddr(h) ELSE a
      mk   == n.mask \cup {d}
      n2   == [mask |-> mk, cap |-> IF full THEN 2 * n.cap ELSE n.cap,
               kids |-> InsertAt(n.kids, Dense(mk, d), x)]
  IN <<Alloc(IF full THEN Free(h, a) ELSE h, a2, n2), a2>>

NodeRemove(h, a, d) ==
  LET n == h[a] IN
  [h EXCEPT ![a] = [mask |-> n.mask \ {d}, cap |-> n.cap,
                    kids |-> RemoveAt(n.kids, Dense(n.mask, d))]]

SetKid(h, a, d, x) == [h EXCEPT ![a].kids[Dense(h[a].mask, d)] = x]

(* Make the path of key k exist below the node at address a of level l and   *)
(* put data slot x at its end (x = 0: only create the nodes).                *)
RECURSIVE Link(_, _, _, _, _)
Link(h, a, l, k, x) ==
  LET d == k[l + 1] IN
  IF Term(l)
  THEN IF x = 0 THEN <<h, a>> ELSE NodeInsert(h, a, d, x)
  ELSE IF d \in h[a].mask
       THEN LET r == Link(h, Child(h[a], d), l + 1, k, x)
            IN <<IF Bug = "stale_ptr" THEN r[1] ELSE SetKid(r[1], a, d, r[2]), a>>
       ELSE LET c  == FreeAddr(h)
                h1 == Alloc(h, c, NewNode(l + 1))
                i  == NodeInsert(h1, a, d, c)
                r  == Link(i[1], c, l + 1, k, x)
            IN <<SetKid(r[1], i[2], d, r[2]), i[2]>>

RECURSIVE Terminal(_, _, _, _)
Terminal(h, a, l, k) == IF Term(l) THEN a ELSE Terminal(h, Child(Node(h, a), k[l + 1]), l + 1, k)

\* The data slot a lookup of k ends in, right or wrong.
SlotOf(h, r, k) == Child(Node(h, Terminal(h, r, 0, k)), k[D])
Has(k) == keys[SlotOf(heap, root, k)] = k
Lookup(k) == IF Has(k) THEN data[SlotOf(heap, root, k)] ELSE NoVal

\* address of the node on the path of k at level l
RECURSIVE OnPath(_, _, _, _, _)
OnPath(h, a, j, l, k) == IF j = l THEN a ELSE OnPath(h, Child(Node(h, a), k[j + 1]), j + 1, l, k)

(* Climb from level l: drop the emptied child of the level-l node, continue  *)
(* while that empties the node.  The root is never dropped.                  *)
RECURSIVE Climb(_, _, _)
Climb(h, l, k) ==
  IF l < 0 THEN h
  ELSE LET a  == OnPath(h, root, 0, l, k)
           c  == Child(h[a], k[l + 1])
           h1 == NodeRemove(Free(h, c), a, k[l + 1])
       IN IF h1[a].mask # {} \/ Bug = "no_climb" THEN h1
          ELSE IF l = 0 THEN h1 ELSE Climb(h1, l - 1, k)

(* ------------------------------- actions -------------------------------- *)
Init ==
  /\ heap = (1 :> NewNode(0))
  /\ root = 1
  /\ data = <<NoVal>>
  /\ keys = <<NoKey>>

Put2(k, v, overwrite) ==
  IF Has(k)
  THEN /\ data' = IF overwrite THEN [data EXCEPT ![SlotOf(heap, root, k)] = v] ELSE data
       /\ UNCHANGED <<heap, root, keys>>
  ELSE LET r == Link(heap, root, 0, k, Len(data) + 1)
       IN /\ heap' = r[1] /\ root' = r[2]
          /\ data' = Append(data, v)
          /\ keys' = Append(keys, k)

Insert(k, v)   == Put2(k, v, TRUE)
GetOrInsert(k) == Put2(k, Default, FALSE)

(* The default of a vacant index panics: the nodes of the path were already  *)
(* created, no entry is.                                                     *)
GetOrInsertPanics(k) ==
  /\ ~Has(k)
  /\ LET r == Link(heap, root, 0, k, 0) IN heap' = r[1] /\ root' = r[2]
  /\ UNCHANGED <<data, keys>>

Remove(k) ==
  IF ~Has(k) THEN UNCHANGED vars
  ELSE LET t    == Terminal(heap, root, 0, k)
           slot == SlotOf(heap, root, k)
           h1   == NodeRemove(heap, t, k[D])
           h2   == IF D > 1 /\ h1[t].mask = {} THEN Climb(h1, D - 2, k) ELSE h1
           lastk == keys[Len(keys)]
           h3   == IF lastk = k \/ Bug = "no_repoint" THEN h2
                   ELSE SetKid(h2, Terminal(h2, root, 0, lastk), lastk[D], slot)
       IN /\ heap' = h3
          /\ keys' = SwapRemove(keys, slot)
          /\ data' = SwapRemove(data, slot)
          /\ UNCHANGED root

\* in-place modification through key_values_mut
Modify(k, v) ==
  IF ~Has(k) THEN UNCHANGED vars
  ELSE data' = [data EXCEPT ![SlotOf(heap, root, k)] = v] /\ UNCHANGED <<heap, root, keys>>

Next == \E k \in Keys : \/ \E v \in Vals : Insert(k, v) \/ Modify(k, v)
                        \/ GetOrInsert(k)
                        \/ Remove(k)
Spec == Init /\ [][Next]_vars
NextFaulty == Next \/ \E k \in Keys : GetOrInsertPanics(k)
FaultySpec == Init /\ [][NextFaulty]_vars

(* ------------------------------ properties ------------------------------ *)
RECURSIVE Reach(_, _)
Reach(a, l) == {<<a, l>>} \cup
   (IF Term(l) THEN {} ELSE UNION {Reach(Child(heap[a], d), l + 1) : d \in heap[a].mask})
Reachable == Reach(root, 0)

WellFormed ==
  /\ \A al \in Reachable :
       LET n == heap[al[1]] IN
       /\ n.mask \subseteq 0..(W - 1)
       /\ Len(n.kids) = Cardinality(n.mask) + 1
       /\ Len(n.kids) <= n.cap
       /\ n.kids[Len(n.kids)] = EmptyKid(al[2])
  /\ \A a, b \in Reachable : a[1] = b[1] => a = b       \* a tree: no sharing
  /\ Len(keys) = Len(data)
  /\ keys[PH] = NoKey

NoLeak   == DOMAIN heap = {al[1] : al \in Reachable}
ExactNodes == \A al \in Reachable : al[2] # 0 => heap[al[1]].mask # {}

EveryEntryReachable == \A i \in 2..Len(keys) : SlotOf(heap, root, keys[i]) = i /\ keys[i] \in Keys
DistinctKeys == Distinct(keys)

\* capacity bound: a byte counter must be able to hold it
CapBound == \A a \in DOMAIN heap : heap[a].cap <= 2 * W

AbsMap == [k \in Keys |-> Lookup(k)]
S == {keys[i] : i \in 2..Len(keys)}

(* In-order walk over the masks: what ordered iteration yields.             *)
RECURSIVE Walk(_, _, _)
Walk(a, l, pre) ==
  LET n == Node(heap, a)
      RECURSIVE Each(_)
      Each(d) == IF d = W THEN <<>>
                 ELSE (IF d \in n.mask
                       THEN IF Term(l) THEN <<<<Append(pre, d), data[Child(n, d)]>>>>
                            ELSE Walk(Child(n, d), l + 1, Append(pre, d))
                       ELSE <<>>) \o Each(d + 1)
  IN Each(0)
Iter == Walk(root, 0, <<>>)
IterCorrect ==
  /\ \A i \in 1..(Len(Iter) - 1) : LexLess(Iter[i][1], Iter[i + 1][1])
  /\ {Iter[i][1] : i \in 1..Len(Iter)} = S
  /\ \A i \in 1..Len(Iter) : Iter[i][2] = AbsMap[Iter[i][1]]

RECURSIVE MaskOf(_, _, _)
MaskOf(a, l, p) == IF Len(p) = l THEN Node(heap, a).mask
                   ELSE IF p[l + 1] \in Node(heap, a).mask
                        THEN MaskOf(Child(Node(heap, a), p[l + 1]), l + 1, p) ELSE {}
Prefixes == {Prefix(k, n) : k \in Keys, n \in 0..(D - 1)}
MasksExact == \A p \in Prefixes :
    MaskOf(root, 0, p) = MaskAt(S, [k \in Keys |-> k], p)
\* after a caught panic of the default: masks may be too large above the leaves, never too small
MasksSound == \A p \in Prefixes :
    LET t == MaskAt(S, [k \in Keys |-> k], p) x == MaskOf(root, 0, p)
    IN t \subseteq x /\ (Len(p) = D - 1 => t = x)

Abs == INSTANCE MapSpec WITH m <- AbsMap
Refines == Abs!Spec
=============================================================================
