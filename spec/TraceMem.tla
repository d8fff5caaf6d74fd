------------------------------ MODULE TraceMem ------------------------------
(* Trace validation of every heap block real containers allocated/released.  *)
EXTENDS Memory, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, s, r      \* r: rounds so far, most memory needed at their ends / peaks in the first two
vars == <<h, i, s, r>>
L == Trace[h]
e == L.ev[i + 1]
Init == h \in 1..Len(Trace) /\ i = 0 /\ s = Heap0 /\ r = [n |-> 0, at |-> 0, peak |-> 0]

IsTrue(b) == b = TRUE
Step ==
  /\ i < Len(L.ev) /\ e.o \in {"op", "round", "end"}
  /\ LET x == Acts(s, e.m, 1) IN
     /\ IsTrue(x.ok)
     /\ IF e.o = "round"
        THEN /\ IsTrue(r.n >= 2 => x.bytes <= r.at /\ x.peak <= r.peak)
             /\ r' = IF r.n >= 2 THEN [r EXCEPT !.n = @ + 1] ELSE [n |-> r.n + 1, at |-> Max(r.at, x.bytes), peak |-> Max(r.peak, x.peak)]
             /\ s' = [x EXCEPT !.peak = x.bytes]
        ELSE IF e.o = "end" THEN IsTrue(DOMAIN x.bl = {} /\ e.w = 0) /\ r' = r /\ s' = x
        ELSE r' = r /\ s' = x
  /\ i' = i + 1 /\ UNCHANGED h
Done == i = Len(L.ev) /\ IsTrue(Len(L.ev) > 0 /\ L.ev[Len(L.ev)].o = "end") /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
