------------------------------- MODULE MCNode --------------------------------
(* Exhaustive: every way a node can be born, every history of its children;  *)
(* one script per transition, replayed on real trees: the node is placed at  *)
(* every level of trees that were filled or materialized.                    *)
EXTENDS HeapNode, Json
CONSTANTS Root, Emitting
VARIABLES start, hist
mcvars == <<vars, start, hist>>

MCInit == /\ \/ Starts(IF Root THEN NewN(2) ELSE None) /\ start = <<"new", <<>>>>
             \/ \E m \in SUBSET Digits : /\ (Root \/ m # {})
                                         /\ \/ Starts(FromParts(m)) /\ start = <<"parts", Ascending(m)>>
                                            \/ Starts(Pushed(m)) /\ start = <<"pushed", Ascending(m)>>
          /\ hist = <<>>
MCNext == \E d \in Digits :
             \/ AddChild(d) /\ hist' = Append(hist, <<1, d>>) /\ UNCHANGED start
             \/ DropChild(d, Root) /\ hist' = Append(hist, <<0, d>>) /\ UNCHANGED start
MCSpec == MCInit /\ [][MCNext]_mcvars
\* junk behind the cells in use does not matter; how it was born only until the first step (AllWritten, ...)
MCView == <<up, mask, cap, IF ok THEN SubSeq(mem, 1, len) ELSE mem, ok, len, start[1], IF hist = <<>> THEN start ELSE <<>>>>
\* the children are a set, whatever happened before
Children == {IF up THEN Reads(Now, d) ELSE Undef : d \in mask}
IsSet == Children = mask
Emit == ~Emitting \/ PrintT("@" \o ToJson([root |-> Root, s |-> start, h |-> hist', m |-> Ascending(mask')]))
=============================================================================
