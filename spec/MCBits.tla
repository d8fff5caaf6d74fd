------------------------------- MODULE MCBits -------------------------------
(* Exhaustive: every array, every interleaving of next and trim; the array   *)
(* queue refines the set queue; one script per transition for the real code. *)
EXTENDS ArrayBitQueue, Json
CONSTANT Emitting
VARIABLES q, hist, s0
vars == <<w, ix, q, hist, s0>>
MCInit == Init /\ q = QueueOf(Set) /\ hist = <<>> /\ s0 = Set
Pop == Next_ /\ q' = NextQ(q) /\ hist' = Append(hist, <<-1, NextReply>>) /\ UNCHANGED s0
Cut(n) == Trim(n) /\ q' = TrimQ(q, n, Cap) /\ hist' = Append(hist, <<n, 0>>) /\ UNCHANGED s0
MCNext == Pop \/ \E n \in 0..(Cap + 2) : Cut(n)
MCSpec == MCInit /\ [][MCNext]_vars
View == <<w, ix, q>>

Same == Set = q.s /\ Traversed = q.s
CurrentInv == CurrentOk(q, Current, Cap)
Replies == [][hist' # hist /\ hist'[Len(hist')][1] = -1 => hist'[Len(hist')][2] = NextR(q)]_vars
Emit == ~Emitting \/ PrintT("@" \o ToJson([s |-> Ascending(s0), h |-> hist', rest |-> Ascending(q'.s), lo |-> q'.lo, end |-> q'.end]))
=============================================================================
