---------------------------- MODULE ArrayBitQueue ---------------------------
(* bit_queue::ArrayBitQueue step by step: an array of words, the index of    *)
(* the active one, and the trick that slot 0 holds the active word's rest.   *)
EXTENDS BitSets, TLC
CONSTANTS WB,        \* bits per word
          N          \* words
Cap == WB * N
VARIABLES w, ix

Init == w \in [0..(N - 1) -> SUBSET (0..(WB - 1))] /\ ix = 0

Set == {ix * WB + b : b \in w[0]} \cup UNION {{j * WB + b : b \in w[j]} : j \in (ix + 1)..(N - 1)}
Tz(s) == IF s = {} THEN WB ELSE Least(s)
Current == ix * WB + Tz(w[0])

RECURSIVE Advance(_, _)
Advance(ww, j) == IF ww[0] # {} \/ j = N - 1 THEN <<ww, j>> ELSE Advance([ww EXCEPT ![0] = ww[j + 1]], j + 1)
NextReply == LET a == Advance(w, ix) IN IF a[1][0] = {} THEN None ELSE a[2] * WB + Least(a[1][0])
Next_ == LET a == Advance(w, ix) IN
         /\ ix' = a[2]
         /\ w' = IF a[1][0] = {} THEN a[1] ELSE [a[1] EXCEPT ![0] = @ \ {Least(@)}]

Trim(n) == LET el == n \div WB bit == n % WB IN
  IF el >= N THEN w' = [w EXCEPT ![0] = {}] /\ ix' = N - 1
  ELSE IF el < ix THEN UNCHANGED <<w, ix>>
  ELSE /\ ix' = el
       /\ w' = [w EXCEPT ![0] = {b \in (IF el # ix THEN w[el] ELSE w[0]) : b >= bit}]

\* traverse() first puts the active word back to its place, then reads from there on
Traversed == LET ww == [w EXCEPT ![ix] = w[0]] IN UNION {{j * WB + b : b \in ww[j]} : j \in ix..(N - 1)}
=============================================================================
