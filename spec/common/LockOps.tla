------------------------------ MODULE LockOps ------------------------------
(* The device lock as a value: who may do what.  Keys are byte strings, the  *)
(* empty one asks for the exclusive lock.  Same rules as SharedLock (the     *)
(* lock specification proper), for use by the protocol specifications.       *)
EXTENDS Naturals, FiniteSets, Sequences

FreeLock == [x |-> 0, sh |-> {}, key |-> <<>>]

CanUse(L, h) == IF L.x # 0 THEN L.x = h ELSE L.sh = {} \/ h \in L.sh

AcqRes(L, h, k) ==
  IF k = <<>>
  THEN IF L.x = h THEN "already"
       ELSE IF L.x # 0 THEN "refused"
       ELSE IF L.sh = {} \/ h \in L.sh THEN "ok"
       ELSE "refused"
  ELSE IF h \in L.sh THEN "already"
       ELSE IF L.sh = {} THEN
              (IF L.x = 0 THEN "ok" ELSE IF L.x = h THEN "already" ELSE "refused")
       ELSE IF L.key = k THEN "ok"
       ELSE "refused"

Acq(L, h, k) == IF k = <<>> THEN [L EXCEPT !.x = h]
                ELSE [L EXCEPT !.sh = @ \cup {h}, !.key = k]

RelRes(L, h) == IF L.x = h THEN "excl" ELSE IF h \in L.sh THEN "shared" ELSE "none"

Rel(L, h) == [x |-> IF L.x = h THEN 0 ELSE L.x,
              sh |-> L.sh \ {h},
              key |-> IF L.sh \ {h} = {} THEN <<>> ELSE L.key]

LockSane(L) == /\ L.x # 0 /\ L.sh # {} => L.x \in L.sh
               /\ (L.sh = {}) <=> (L.key = <<>>)
=============================================================================
