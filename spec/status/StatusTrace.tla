---------------------------- MODULE StatusTrace ----------------------------
(* Accepts recorded histories of the real status bus that StatusBus explains *)
EXTENDS StatusBus, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
TInit == Init /\ tid \in 1..N /\ l = 1
Step(e) ==
  CASE e.e = "inv" -> Invoke(e.t, [k |-> e.op, r |-> e.r, v |-> e.v])
    [] e.e = "ret" -> res[e.t] = e.v /\ Return(e.t)
    [] e.e = "cancel" -> Cancel(e.t)
    [] e.e = "quiet" -> Quiet /\ UNCHANGED vars
    [] e.e = "mem" -> e.g = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE
\* Receivers are not scheduled in the middle of a publication: any order will do
First == CHOOSE s \in todo : \A t \in todo : s <= t
TInternal(p) ==
  IF todo # {} THEN Deliver(p, First)
  ELSE PubStart(p) \/ PubEnd(p) \/ Sub(p) \/ Recv(p) \/ Close(p) \/ DropTx(p)
TNext ==
  \/ /\ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l <= Len(Ev) /\ (\E p \in Procs : TInternal(p)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
\* histories are not needed to explain a trace
View == <<subs, queue, tx, busy, todo, proc, tid, l>>
Note == /\ TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
