---------------------------- MODULE HislipTrace ----------------------------
(* Accepts recorded histories of the real HiSLIP server which Hislip explains. *)
EXTENDS Hislip, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES tid, l
tvars == <<vars, tid, l>>

Ev == Traces[tid].ev

TInit == Init0 /\ tid \in 1..N /\ l = 1 /\ cf = Traces[tid].cfg

Range(s) == {s[i] : i \in DOMAIN s}
M(e) == [t |-> e.t, c |-> e.cc, ph |-> e.ph, pl |-> e.pl, d |-> e.d, x |-> e.x, u |-> e.u]

\* Locks as seen from outside: exclusive or not, number of sharers
LockObs(o) == \A d \in DOMAIN o : o[d][1] = (lock[d].x # 0) /\ o[d][2] = Cardinality(lock[d].sh)

Step(e) ==
  CASE e.e = "conn" -> Connect(e.c)
    [] e.e = "send" -> Send(e.c, M(e))
    [] e.e = "full" -> Full(e.c)
    [] e.e = "shut" -> Shut(e.c)
    [] e.e = "gone" -> Gone(e.c)
    [] e.e = "recv" -> Recv(e.c, [t |-> e.t, c |-> e.cc, ph |-> e.ph, pl |-> e.pl, d |-> e.d])
    [] e.e = "eof"  -> Eof(e.c)
    [] e.e = "pub"  -> Publish(e.v)
    [] e.e = "hold" -> Hold(e.d)
    [] e.e = "unhold" -> Unhold(e.d)
    [] e.e = "xacq" -> XAcq(e.x, e.d, e.k, e.r)
    [] e.e = "xrel" -> XRel(e.x, e.d, e.r)
    [] e.e = "exec" -> Dev(e.c) = e.dev /\ Exec(e.c, e.cmd, e.r)
    [] e.e = "trig" -> Dev(e.c) = e.dev /\ DevTrigger(e.c)
    [] e.e = "clear" -> Dev(e.c) = e.dev /\ DevClear(e.c)
    [] e.e = "call" -> ses[e.c] # 0 /\ Dev(e.c) = e.dev /\ DevCall(e.c, e.op, e.arg, e.v)
    [] e.e = "quiet" -> Quiet(Range(e.slow), Range(e.tim)) /\ LockObs(e.locks) /\ UNCHANGED vars
    [] e.e = "mem" -> e.g = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE      \* panic, spin, busy, early, late, deadlock

(***************************************************************************)
(* Steps of the server which nobody sees are only taken where the order     *)
(* may matter for the next event; every other order of the same steps leads *)
(* to the same states (they commute with the events they are moved over).   *)
(***************************************************************************)

\* Handling the pending messages of c may change, or depends on, more than c's own state
Has(c, T) == \E i \in DOMAIN inq[c] : inq[c][i].x = "bad" \/ inq[c][i].t \in T
Glob(c) ==
  CASE st[c] = "init" -> inq[c] # <<>>
    [] st[c] = "sync" ->
         \/ cli[c] # "open"
         \/ /\ inq[c] # <<>>
            /\ \/ sst[c] = "hand"
               \/ cf.idn # <<>>
               \/ Has(c, Tls \cup (IF mode[c] = "clearing" \/ clr[c] THEN {8} ELSE {}))
               \/ \E b \in Conns : st[b] = "async" /\ ses[b] = c /\ Has(b, {15, 19})
    [] st[c] = "async" -> cli[c] # "open" \/ wait[c] # NoWait \/ Has(c, {4, 15, 19, 24, 29, 32})
    [] OTHER -> FALSE

Mate(a, b) == a = b \/ (ses[a] # 0 /\ ses[a] = ses[b])

Relevant(e) ==
  CASE e.e \in {"conn", "send", "full", "shut", "gone", "pub", "hold", "unhold", "mem"} -> {}
    [] e.e = "recv" /\ out[e.c] # <<>> /\ LET h == Head(out[e.c]) IN h.k = "m" \/ (h.k = "r" /\ ~h.cut) -> {}
    [] e.e \in {"recv", "eof"} -> {c \in Conns : Mate(c, e.c) \/ Glob(c)}
    [] e.e \in {"exec", "trig", "clear", "call"} -> {c \in Conns : Mate(c, e.c) \/ Glob(c)}
    [] e.e \in {"xacq", "xrel"} -> {c \in Conns : Glob(c)}
    [] e.e = "quiet" ->
         LET S == Range(e.slow)
             G == {c \in Conns : Glob(c)}
             L == {c \in Conns \ (G \cup S) : ~Rest(c, Range(e.tim)) /\ ENABLED Internal(c)}
         IN G \cup {c \in L : \A b \in L : c <= b}
    [] OTHER -> {}

\* Which service request is sent when is only tried where the client will read just that one:
\* any other choice would be given up at the latest when the client reads it
RecvAt == [t \in 1..N |-> [c \in Conns |->
             SelectSeq([i \in 1..Len(Traces[t].ev) |-> i],
                       LAMBDA i : Traces[t].ev[i].e = "recv" /\ Traces[t].ev[i].c = c)]]
SrqOk(c) ==
  LET n == Len(out'[c])  R == RecvAt[tid][c]
      k == Cardinality({i \in DOMAIN R : R[i] < l})
  IN (/\ n > Len(out[c]) /\ out'[c][n].k = "m" /\ out'[c][n].t = 20
      /\ \A i \in 1..n : out'[c][i].k # "r"
      /\ k + n <= Len(R))
     => LET e == Ev[R[k + n]] IN e.t = 20 /\ e.cc \in out'[c][n].c

TNext ==
  \/ /\ l <= Len(Ev)
     /\ Step(Ev[l])
     /\ l' = l + 1 /\ UNCHANGED tid
  \/ /\ l <= Len(Ev)
     /\ \E c \in Relevant(Ev[l]) : Internal(c) /\ SrqOk(c)
     /\ UNCHANGED <<tid, l>>

TSpec == TInit /\ [][TNext]_tvars

Mark == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Note == /\ Mark
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
