------------------------------ MODULE VxiTrace ------------------------------
(* Accepts recorded histories of the real VXI-11 server which Vxi explains *)
EXTENDS Vxi, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid].ev
TInit == Init0 /\ tid \in 1..N /\ l = 1 /\ cf = Traces[tid].cfg

LockObs(o) == \A d \in DOMAIN o : o[d][1] = (lock[d].x # 0) /\ o[d][2] = Cardinality(lock[d].sh)

Step(e) ==
  CASE e.e = "conn" -> Connect(e.c, e.k)
    [] e.e = "call" -> Call(e.c, e.m)
    [] e.e = "reply" -> Reply(e.c, e)
    [] e.e = "eof" -> Eof(e.c)
    [] e.e = "shut" -> Shut(e.c)
    [] e.e = "gone" -> Gone(e.c)
    [] e.e = "exec" -> Exec(e.d, e.cmd, e.r)
    [] e.e = "trig" -> Trig(e.d, e.err)
    [] e.e = "clear" -> Clear(e.d, e.err)
    [] e.e = "rem" -> Remote(e.d, e.on, e.err)
    [] e.e = "stb" -> Stb(e.d, e.v, e.err)
    [] e.e = "pub" -> Publish
    [] e.e = "intr" -> Intr(e.p, e.pg, e.pv, e.h)
    [] e.e = "pgone" -> PeerGone(e.p)
    [] e.e = "hold" -> Hold(e.d)
    [] e.e = "unhold" -> Unhold(e.d)
    [] e.e = "xacq" -> XAcq(e.x, e.d, e.k, e.r)
    [] e.e = "xrel" -> XRel(e.x, e.d, e.r)
    [] e.e = "quiet" -> Quiet({e.open[i] : i \in DOMAIN e.open}) /\ LockObs(e.locks) /\ UNCHANGED vars
    [] e.e = "mem" -> e.g = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE    \* late, panic, noise on an interrupt channel

(* Steps nobody sees are only needed before events which could tell the difference *)
Inert == {"conn", "call", "shut", "gone", "pgone", "mem"}
\* Handling the calls of c touches nothing but c
Own(c) == ~(\E i \in DOMAIN q[c] : q[c][i].op \in {"create", "destroy", "lock", "unlock", "srq", "abort", "ichan", "dchan"}
                                  \cup Access \cup Stop) /\ cli[c] = "open"
\* Only the end of c is left, and it matters to nobody
Empty(c) == OfConn(c) = {} /\ (cli[c] = "closed" \/ (cli[c] \in {"shut", "gone"} /\ q[c] = <<>>))
Relevant(e) ==
  IF e.e \in Inert THEN {}
  ELSE {c \in Conns : (q[c] # <<>> \/ cli[c] \in {"shut", "gone", "closed"}) /\ up[c] = "up"
                       /\ (Empty(c) => e.e = "quiet")
                       /\ (Own(c) => (e.e = "quiet" \/ (e.e = "reply" /\ e.c = c)))}
\* The link's service request is only sent right before somebody could tell
Notes(e) == IF e.e \in Inert \cup {"exec", "trig", "clear", "rem", "stb", "hold", "xacq", "xrel"} THEN {}
            ELSE {i \in DOMAIN links : links[i].due > 0}

TNext ==
  \/ /\ l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l <= Len(Ev) /\ (\E c \in Relevant(Ev[l]) : Internal(c)) /\ UNCHANGED <<tid, l>>
  \/ /\ l <= Len(Ev) /\ (\E i \in Notes(Ev[l]) : Notify(i)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars

Note == /\ TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
