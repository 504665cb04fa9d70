----------------------------- MODULE ServeTrace ------------------------------
(* Accepts recorded histories of connections explained by Serve              *)
EXTENDS Serve, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
TInit == /\ tid \in 1..N /\ l = 1
         /\ cf = Traces[tid].cfg
         /\ cn = [c \in 1..Traces[tid].n |-> Conn0]
         /\ q = <<>>

Step(e) ==
  CASE e.e = "conn" -> Conn(e.c)
    [] e.e = "probe" -> Probe(e.c)
    [] e.e = "bad" -> Bad(e.c)
    [] e.e = "half" -> Half(e.c)
    [] e.e = "leave" -> Leave(e.c)
    [] e.e = "ans" -> Ans(e.c)
    [] e.e = "eof" -> Eof(e.c)
    [] e.e = "quiet" -> Quiet
    [] OTHER -> FALSE    \* refused, wrong, late, lost, panic, died
\* Before whatever is explained next the server does what it can.  Taking in somebody as soon as
\* possible is never wrong; who is over ends when somebody waits, or is seen to have ended.
Internal == \/ Accept
            \/ \E c \in Run : Drop(c)
TNext == \/ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
         \/ l <= Len(Ev) /\ Internal /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Note == /\ TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
