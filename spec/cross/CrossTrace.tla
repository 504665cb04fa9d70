----------------------------- MODULE CrossTrace ------------------------------
(* Accepts recorded histories of a device with several servers               *)
EXTENDS Cross, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
TInit == /\ tid \in 1..N /\ l = 1
         /\ cl = [c \in 1..Traces[tid].n |-> Client0]
         /\ L = FreeLock /\ run = {}

\* Executed exactly once: identifiers are unique
Step(e) ==
  CASE e.e = "send" -> Send(e.c, [op |-> e.op, id |-> e.id, wait |-> e.wait, k |-> e.k])
    [] e.e = "exec" -> \E c \in DOMAIN cl : Busy(c) /\ Head1(c).op = "cmd" /\ Head1(c).id = e.id /\ Exec(c)
    [] e.e = "res" -> Res(e.c, e.id, e.r)
    [] e.e = "leave" -> Leave(e.c)
    [] e.e = "quiet" -> Quiet
    [] OTHER -> FALSE    \* wrong, eof, setup, call, panic
Internal == \E c \in DOMAIN cl : \/ Enter(c) \/ RefuseCmd(c) \/ Grant(c) \/ RefuseLock(c) \/ Unlock(c) \/ Gone(c)
TNext == \/ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
         \/ l <= Len(Ev) /\ Internal /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
\* What was executed is of no further interest
TView == <<cl, L, tid, l>>

Note == /\ TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
