----------------------------- MODULE LockTrace -----------------------------
(* Accepts recorded histories of the real lock that SharedLock explains.   *)
EXTENDS SharedLock, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES tid, l, mark
tvars == <<vars, tid, l, mark>>

Ev == Traces[tid].ev

TInit == Init /\ tid \in 1..N /\ l = 1 /\ mark = <<>>

ToOp(e) == [k |-> e.op, h |-> e.h, key |-> e.k, w |-> e.w]

Obs(e) ==
  /\ e.x = (excl # 0)
  /\ e.n = Cardinality(shared)
  /\ \A i \in DOMAIN e.can : LET c == e.can[i] IN
        IF c > 100 THEN ~CanUse(c - 100) ELSE CanUse(c)
  /\ \A i \in DOMAIN e.hx : LET c == e.hx[i] IN
        IF c > 100 THEN excl # c - 100 ELSE excl = c
  /\ \A i \in DOMAIN e.hs : LET c == e.hs[i] IN
        IF c > 100 THEN c - 100 \notin shared ELSE c \in shared

Step(e) ==
  CASE e.e = "new"  -> New(e.h)
    [] e.e = "drop" -> \* atomic in the sequential driver
         /\ e.h \in alive
         /\ RelEffect(e.h) /\ alive' = alive \ {e.h}
         /\ UNCHANGED <<dev, procvars>>
    [] e.e = "inv"  -> Invoke(e.t, ToOp(e))
    [] e.e = "ret"  -> /\ IF op[e.t].k = "info"
                          THEN res[e.t] = Res(e.r, e.x, e.n)
                          ELSE res[e.t].r = e.r
                       /\ Return(e.t)
    [] e.e = "cancel" -> Cancel(e.t)
    [] e.e = "quiet"  -> Quiet /\ UNCHANGED vars
    [] e.e = "obs"    -> Obs(e) /\ UNCHANGED vars
    \* The history since the mark was repeated: when it leads back to the same state,
    \* the memory in use must not have grown (bytes per repetition)
    [] e.e = "mark" -> UNCHANGED vars
    [] e.e = "mem" -> ((<<lockvars, op>> = mark => e.g = 0) /\ UNCHANGED vars)
    [] OTHER -> FALSE      \* panic, deadlock, stuck, inconsistent

TNext ==
  \/ /\ l <= Len(Ev)
     /\ Step(Ev[l])
     /\ l' = l + 1 /\ UNCHANGED tid
     /\ mark' = IF Ev[l].e = "mark" THEN <<lockvars, op>> ELSE mark
  \/ /\ l <= Len(Ev)
     /\ \E p \in Procs : Lin(p)
     /\ UNCHANGED <<tid, l, mark>>

TSpec == TInit /\ [][TNext]_tvars

\* Bookkeeping: longest explained prefix of every trace
Mark == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))
Note == /\ Mark
        /\ TLCGet(tid) <= Len(Ev) \/ l = Len(Ev) + 1
ASSUME \A i \in 1..N : TLCSet(i, 0)
Report == \A i \in 1..N :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
