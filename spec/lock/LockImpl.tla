------------------------------ MODULE LockImpl ------------------------------
(***************************************************************************)
(* The algorithm of lxi-device::lock, one action per critical section:     *)
(* every request first checks, then registers a one-shot listener, checks  *)
(* again and sleeps until the listener fires.  Every change of the lock    *)
(* fires (and forgets) all listeners.  A request for the device waits for  *)
(* both the device mutex and its listener, and checks again once it has    *)
(* the device.                                                             *)
(* Checked to refine SharedLock, and never to lose a wake-up.              *)
(* The constants switch the essential ingredients off, to show that each   *)
(* of them is needed (and that the properties can fail).                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Procs, Keys,
          Recheck,      \* check the lock again once the device was obtained
          CheckAgain,   \* check again between registering and sleeping
          NotifyRelease \* releasing fires the listeners
VARIABLES alive, excl, shared, key, mdev, pc, op, res,
          step,  \* program counter within an operation
          lis    \* listener of a process: "none", "armed", "fired"
          
Handles == Procs  \* one handle per process
H(p) == p

ivars == <<alive, excl, shared, key, mdev, pc, op, res, step, lis>>

\* Abstraction: the device counts as used once the last check succeeded
absdev == IF mdev # 0 /\ step[mdev] \in {"l_recheck", "t_recheck"} THEN 0 ELSE mdev

SL == INSTANCE SharedLock WITH dev <- absdev

Fire(l) == [q \in Procs |-> IF l[q] = "armed" THEN "fired" ELSE l[q]]

Init ==
  /\ mdev = 0
  /\ step = [p \in Procs |-> "idle"]
  /\ SL!Init
  /\ lis = [p \in Procs |-> "none"]

New(p) == /\ H(p) \notin alive /\ alive' = alive \cup {H(p)}
          /\ UNCHANGED <<excl, shared, key, mdev, pc, op, res, step, lis>>

Finish(p, r) ==
  /\ pc' = [pc EXCEPT ![p] = "lin"]
  /\ res' = [res EXCEPT ![p] = SL!Res(r, FALSE, 0)]
  /\ step' = [step EXCEPT ![p] = "done"]
  /\ UNCHANGED op

Goto(p, s) == step' = [step EXCEPT ![p] = s] /\ UNCHANGED <<pc, op, res>>

Start(p) ==
  /\ pc[p] = "idle" /\ H(p) \in alive
  /\ \E o \in SL!Ops \cup {[k |-> "unlock", h |-> p, key |-> 0, w |-> FALSE]} :
       /\ o.h = H(p)
       /\ o.k \notin {"can", "info"}
       /\ mdev = p => o.k \notin {"lock", "drop"}
       /\ o.k = "unlock" => mdev = p
       /\ pc' = [pc EXCEPT ![p] = "inv"]
       /\ op' = [op EXCEPT ![p] = o]
       /\ res' = [res EXCEPT ![p] = SL!NoRes]
       /\ step' = [step EXCEPT ![p] = o.k]
       /\ UNCHANGED <<alive, excl, shared, key, mdev, lis>>

End(p) ==
  /\ pc[p] = "lin"
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = SL!NoOp]
  /\ res' = [res EXCEPT ![p] = SL!NoRes]
  /\ step' = [step EXCEPT ![p] = "idle"]
  /\ lis' = [lis EXCEPT ![p] = "none"]
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

\* try_acquire*
Acquire(p) ==
  LET r == SL!AcqRes(H(p), op[p].key) IN
  /\ step[p] = "acq"
  /\ IF r = "ok"
     THEN /\ SL!AcqEffect(H(p), op[p].key)
          /\ lis' = Fire(lis)
          /\ Finish(p, "ok")
     ELSE /\ UNCHANGED <<excl, shared, key>>
          /\ IF op[p].w /\ r = "refused"
             THEN IF lis[p] = "none" THEN Goto(p, "a_listen") /\ UNCHANGED lis
                                     ELSE Goto(p, "a_wait") /\ UNCHANGED lis
             ELSE Finish(p, r) /\ UNCHANGED lis
  /\ UNCHANGED <<alive, mdev>>

AListen(p) ==
  /\ step[p] = "a_listen"
  /\ lis' = [lis EXCEPT ![p] = "armed"]
  /\ Goto(p, IF CheckAgain THEN "acq" ELSE "a_wait")
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

AWait(p) ==
  /\ step[p] = "a_wait" /\ lis[p] = "fired"
  /\ lis' = [lis EXCEPT ![p] = "none"]
  /\ Goto(p, "acq")
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

\* async_lock / try_lock: check
LCheck(p) ==
  /\ step[p] = "lock"
  /\ IF SL!CanUse(H(p))
     THEN Goto(p, IF op[p].w THEN "l_listen" ELSE "t_take") /\ UNCHANGED lis
     ELSE IF ~op[p].w THEN Finish(p, "refused") /\ UNCHANGED lis
     ELSE Goto(p, IF lis[p] = "none" THEN "w_listen" ELSE "w_wait") /\ UNCHANGED lis
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

WListen(p) ==
  /\ step[p] = "w_listen"
  /\ lis' = [lis EXCEPT ![p] = "armed"]
  /\ Goto(p, IF CheckAgain THEN "lock" ELSE "w_wait")
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

WWait(p) ==
  /\ step[p] = "w_wait" /\ lis[p] = "fired"
  /\ lis' = [lis EXCEPT ![p] = "none"]
  /\ Goto(p, "lock")
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

\* A fresh listener is registered, an older one is dropped
LListen(p) ==
  /\ step[p] = "l_listen"
  /\ lis' = [lis EXCEPT ![p] = "armed"]
  /\ Goto(p, "l_sel")
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

LTake(p) ==
  /\ step[p] = "l_sel" /\ mdev = 0
  /\ mdev' = p
  /\ IF Recheck THEN Goto(p, "l_recheck") ELSE Finish(p, "ok")
  /\ UNCHANGED <<alive, excl, shared, key, lis>>

LEvent(p) ==
  /\ step[p] = "l_sel" /\ lis[p] = "fired"
  /\ lis' = [lis EXCEPT ![p] = "none"]
  /\ Goto(p, "lock")
  /\ UNCHANGED <<alive, excl, shared, key, mdev>>

LRecheck(p) ==
  /\ step[p] = "l_recheck"
  /\ IF SL!CanUse(H(p))
     THEN Finish(p, "ok") /\ UNCHANGED <<mdev, lis>>
     ELSE /\ mdev' = 0
          /\ lis' = [lis EXCEPT ![p] = "none"]
          /\ Goto(p, "lock")
  /\ UNCHANGED <<alive, excl, shared, key>>

TTake(p) ==
  /\ step[p] = "t_take"
  /\ IF mdev # 0
     THEN Finish(p, "busy") /\ UNCHANGED mdev
     ELSE mdev' = p /\ (IF Recheck THEN Goto(p, "t_recheck") ELSE Finish(p, "ok"))
  /\ UNCHANGED <<alive, excl, shared, key, lis>>

TRecheck(p) ==
  /\ step[p] = "t_recheck"
  /\ IF SL!CanUse(H(p)) THEN Finish(p, "ok") /\ UNCHANGED mdev
                        ELSE mdev' = 0 /\ Finish(p, "refused")
  /\ UNCHANGED <<alive, excl, shared, key, lis>>

Unlock(p) ==
  /\ step[p] = "unlock"
  /\ mdev' = 0
  /\ Finish(p, "ok")
  /\ UNCHANGED <<alive, excl, shared, key, lis>>

\* try_release, also on drop; only a change somebody can profit from fires
Release(p) ==
  /\ step[p] \in {"rel", "force", "drop"}
  /\ LET r == SL!RelRes(H(p)) IN
     /\ SL!RelEffect(H(p))
     /\ lis' = IF NotifyRelease /\ (excl = H(p) \/ (shared = {H(p)})) THEN Fire(lis) ELSE lis
     /\ Finish(p, IF step[p] = "rel" THEN r ELSE "ok")
  /\ alive' = IF step[p] = "drop" THEN alive \ {H(p)} ELSE alive
  /\ UNCHANGED mdev

\* A sleeping request is dropped
Cancel(p) ==
  /\ pc[p] = "inv" /\ op[p].w /\ step[p] \in {"a_wait", "w_wait", "l_sel"}
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = SL!NoOp]
  /\ step' = [step EXCEPT ![p] = "idle"]
  /\ lis' = [lis EXCEPT ![p] = "none"]
  /\ UNCHANGED <<res, alive, excl, shared, key, mdev>>

Work(p) ==
  \/ Acquire(p) \/ AListen(p) \/ AWait(p)
  \/ LCheck(p) \/ WListen(p) \/ WWait(p) \/ LListen(p) \/ LTake(p) \/ LEvent(p) \/ LRecheck(p)
  \/ TTake(p) \/ TRecheck(p) \/ Unlock(p) \/ Release(p) \/ End(p)

Next == \E p \in Procs : New(p) \/ Start(p) \/ Work(p) \/ Cancel(p)

Spec == Init /\ [][Next]_ivars
\* select! picks at random among its ready branches: taking the device is not put off for ever
FairSpec == Spec /\ \A p \in Procs : WF_ivars(Work(p)) /\ SF_ivars(LTake(p)) /\ SF_ivars(Acquire(p))

-----------------------------------------------------------------------------
Refines == SL!Spec
\* C02 on the algorithm itself
GrantSafe == SL!GrantSafe
\* C03: when nothing can move, nobody waits for something it could get
Asleep(p) == pc[p] = "idle" \/ ~ENABLED Work(p)
NoLostWakeup == (\A p \in Procs : Asleep(p)) => SL!Quiet
\* C05: listeners belong to pending requests
Bounded == \A p \in Procs : pc[p] = "idle" => lis[p] = "none"
\* C03 as liveness: whoever waits alone for something free gets it
Progress == \A p \in Procs :
  (pc[p] = "inv" /\ SL!Answers(p) # {}) ~> (pc[p] # "inv" \/ SL!Answers(p) = {})
=============================================================================
