------------------------------ MODULE RpcTrace ------------------------------
(* Accepts recorded histories of the real clients which RpcClient explains *)
EXTENDS RpcClient, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
TInit == Init0 /\ tid \in 1..N /\ l = 1

Step(e) ==
  CASE e.e = "invoke" -> Invoke(e.op, e.a)
    [] e.e = "saw" -> e.rv = 2 /\ e.pg = 100000 /\ e.vs = 2 /\ e.auth = 0 /\ Saw(e.x, e.pr, e.args)
    [] e.e = "put" -> Put(e.m)
    [] e.e = "close" -> Close
    [] e.e = "res" -> Res(e.k, e.v)
    [] OTHER -> FALSE    \* late, panic, noise
TNext ==
  \/ /\ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l <= Len(Ev) /\ Internal /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Note == /\ TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
