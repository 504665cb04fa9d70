------------------------------ MODULE LineTrace ------------------------------
(* Accepts recorded histories of the raw and telnet servers explained by Line *)
EXTENDS Line, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
TInit == /\ tid \in 1..N /\ l = 1
         /\ cf = Traces[tid].cfg
         /\ cn = [c \in DOMAIN cf |-> Conn0]
         /\ lock = FreeLock /\ held = FALSE

Step(e) ==
  CASE e.e = "conn" -> Conn(e.c)
    [] e.e = "feed" -> Feed(e.c, e.b)
    [] e.e = "exec" -> Exec(e.c, e.cmd, e.s, e.r)
    [] e.e = "out" -> Out(e.c, e.b)
    [] e.e = "half" -> Half(e.c)
    [] e.e = "gone" -> Gone(e.c)
    [] e.e = "done" -> Done(e.c)
    [] e.e = "xacq" -> XAcq(e.x, e.k, e.r)
    [] e.e = "xrel" -> XRel(e.x, e.r)
    [] e.e = "hold" -> Hold
    [] e.e = "unhold" -> Unhold
    [] e.e = "quiet" -> Quiet({e.slow[i] : i \in DOMAIN e.slow})
    [] OTHER -> FALSE    \* panic, spin, busy, call, garbage
TNext == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_tvars

Note == /\ TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
