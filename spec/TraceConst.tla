------------------------------ MODULE TraceConst ----------------------------
(* Every compile-time loop and integer of the real library.                  *)
EXTENDS ConstLoops, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i
vars == <<h, i>>
L == Trace[h]
e == L.ev[i + 1]
IsTrue(b) == b = TRUE
Init == h \in 1..Len(Trace) /\ i = 0
Bool(b) == IF b THEN 1 ELSE 0
Ok ==
  CASE e.o = "for" -> /\ e.v = Visits(e.a, e.b, e.rev = 1, e.stop)
                      /\ e.w = e.v                                  \* value() and VALUE agree
                      /\ e.brk = Bool(Stops(e.a, e.b, e.stop))
                      /\ (e.brk = 1 => e.out = e.v[Len(e.v)])       \* the visitor's own answer is handed back
    [] e.o = "int" -> /\ e.val = e.n /\ e.vt = e.n /\ e.dv = e.n
                      /\ e.sat = (IF e.n = 0 THEN 0 ELSE e.n - 1) /\ e.satt = e.sat
                      /\ (e.n > 0 => e.dec = e.n - 1 /\ e.dect = e.n - 1)
                      /\ (e.n < 9 => e.inc = e.n + 1 /\ e.inct = e.n + 1)
                      /\ e.eq = 1
    [] e.o = "arr" -> /\ e.len = e.n /\ e.cap = e.n /\ e.size = e.n /\ e.ccap = e.n
                      /\ e.x = [j \in 1..e.n |-> j - 1] /\ e.c = e.x
                      /\ (e.n > 0 => e.init = SubSeq(e.x, 1, e.n - 1) /\ e.last = e.n - 1 /\ e.drops = e.n)
    [] e.o = "cond" -> e.t = 1 /\ e.f = 0 /\ e.ty = <<1, 2>> /\ e.in = <<3, 4>>
    [] OTHER -> FALSE
Step == i < Len(L.ev) /\ IsTrue(Ok) /\ i' = i + 1 /\ UNCHANGED h
Done == i = Len(L.ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
