------------------------------- MODULE Cross --------------------------------
(* Clients of several protocols use one device and its lock.  Seen from here *)
(* the protocols differ little: commands of raw and telnet clients always    *)
(* wait until they may be executed; those of VXI-11 and HiSLIP clients may   *)
(* also lock, release and give up waiting.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, LockOps

VARIABLES
  cl,    \* clients
  L,     \* the lock
  run    \* identifiers of the commands the device executed
vars == <<cl, L, run>>

\* Requests: [op: cmd, lock or unlock; id; wait: no, short (some time), long; k: key]
\* ph, of the first request: new, in: may use the device; out: results to be sent
Client0 == [up |-> "up", pend |-> <<>>, ph |-> "new", out |-> <<>>]    \* up, left: client has left, gone: noticed
Head1(c) == cl[c].pend[1]
Busy(c) == cl[c].pend # <<>>
New(c) == Busy(c) /\ cl[c].ph = "new"
Finish(c, r) == cl' = [cl EXCEPT ![c].pend = Tail(@), ![c].ph = "new", ![c].out = Append(@, <<Head1(c).id, r>>)]
\* Whoever executes a command for somebody may hold the device a little longer
Others(c) == \E d \in DOMAIN cl : d # c /\ (Busy(d) \/ cl[d].out # <<>> \/ cl[d].up # "up")

Send(c, o) == /\ cl[c].up = "up" /\ cl' = [cl EXCEPT ![c].pend = Append(@, o)] /\ UNCHANGED <<L, run>>
Leave(c) == /\ cl[c].up = "up" /\ cl' = [cl EXCEPT ![c].up = "left"] /\ UNCHANGED <<L, run>>

\* The device may be used
MayUse(c) == CanUse(L, c)
Enter(c) == /\ New(c) /\ Head1(c).op = "cmd" /\ MayUse(c)
            /\ cl' = [cl EXCEPT ![c].ph = "in"] /\ UNCHANGED <<L, run>>
Exec(c) == /\ Busy(c) /\ cl[c].ph = "in" /\ Finish(c, "ok") /\ run' = run \cup {Head1(c).id} /\ UNCHANGED L
\* Whoever does not want to wait may also find the device in use
RefuseCmd(c) == /\ New(c) /\ Head1(c).op = "cmd" /\ Head1(c).wait # "long"
                /\ ~CanUse(L, c) \/ Others(c)
                /\ Finish(c, "no") /\ UNCHANGED <<L, run>>
Grant(c) == /\ New(c) /\ Head1(c).op = "lock" /\ AcqRes(L, c, Head1(c).k) = "ok"
            /\ L' = Acq(L, c, Head1(c).k) /\ Finish(c, "ok") /\ UNCHANGED run
RefuseLock(c) == /\ New(c) /\ Head1(c).op = "lock"
                 /\ \/ AcqRes(L, c, Head1(c).k) = "already"
                    \/ AcqRes(L, c, Head1(c).k) = "refused" /\ Head1(c).wait # "long"
                 /\ Finish(c, "no") /\ UNCHANGED <<L, run>>
Unlock(c) == /\ New(c) /\ Head1(c).op = "unlock"
             /\ Finish(c, IF RelRes(L, c) = "none" THEN "no" ELSE "ok") /\ L' = Rel(L, c) /\ UNCHANGED run
\* The client learns a result
Res(c, id, r) == /\ cl[c].up = "up" /\ cl[c].out # <<>> /\ cl[c].out[1] = <<id, r>>
                 /\ cl' = [cl EXCEPT ![c].out = Tail(@)] /\ UNCHANGED <<L, run>>
\* The server notices that a client has left, maybe only when it is done with its requests
Gone(c) == /\ cl[c].up = "left" /\ cl[c].ph # "in"
           /\ cl' = [cl EXCEPT ![c].up = "gone", ![c].pend = <<>>, ![c].out = <<>>]
           /\ L' = Rel(L, c) /\ UNCHANGED run

\* Nothing is left to do but to wait for others.  Whoever got hold of the device before a lock was
\* granted may still be about to use it
Stuck(c) == /\ Busy(c)
            /\ \/ Head1(c).op = "cmd" /\ ~CanUse(L, c) /\ (Head1(c).wait = "long" \/ cl[c].ph = "in")
               \/ Head1(c).op = "lock" /\ AcqRes(L, c, Head1(c).k) = "refused" /\ Head1(c).wait = "long"
\* What becomes of the requests of those who left cannot be waited for, but nobody may wait for their locks in vain
Holds(c) == L.x = c \/ c \in L.sh
Waiting == \E c \in DOMAIN cl : cl[c].up = "up" /\ Busy(c)
AllDone == \A c \in DOMAIN cl : CASE cl[c].up = "up" -> cl[c].out = <<>> /\ (~Busy(c) \/ Stuck(c))
                                  [] cl[c].up = "left" -> Waiting => (~Holds(c) \/ Stuck(c))
                                  [] OTHER -> TRUE
Quiet == AllDone /\ UNCHANGED vars
=============================================================================
