------------------------------- MODULE MapSpec -------------------------------
(* The abstract container: a finite map from digit-path keys to values.      *)
(* Every public operation is one action; the structural models (DenseTree,   *)
(* SparseTree) refine this module, and TraceMap replays recorded executions  *)
(* of the real containers against the same next-state functions.             *)
EXTENDS HibitMap

CONSTANTS Keys,      \* finite set of keys (digit paths)
          Vals,      \* values that may be written
          NoVal,     \* "absent"
          Default    \* what get_or_insert stores into a vacant index

VARIABLE m           \* [Keys -> Vals \cup {Default, NoVal}]

Init == m = [k \in Keys |-> NoVal]

Insert(k, v)     == m' = InsertF(m, k, v)
GetOrInsert(k)   == m' = GetOrInsertF(m, k, NoVal, Default)
Remove(k)        == m' = RemoveF(m, k, NoVal)
Modify(k, v)     == m' = ModifyF(m, k, v, NoVal)        \* get_mut / key_values_mut

Next == \E k \in Keys : \/ \E v \in Vals : Insert(k, v) \/ Modify(k, v)
                        \/ GetOrInsert(k)
                        \/ Remove(k)

Spec == Init /\ [][Next]_m

TypeOK == m \in [Keys -> Vals \cup {Default, NoVal}]
=============================================================================
