----------------------------- MODULE StatusBus -----------------------------
(***************************************************************************)
(* The status broadcast of lxi-device: publishers send status values to    *)
(* every subscriber.  A publication walks over all subscribers one by one  *)
(* and excludes other publications and subscriptions meanwhile, but not    *)
(* receivers.  A subscriber with Room values waiting loses the newest      *)
(* value; nobody ever waits for a subscriber.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Procs, Subs, Room, MaxPub

VARIABLES subs,     \* subscribers which are open
          queue,    \* values waiting for each subscriber
          tx,       \* is there anybody left who can publish
          busy,     \* process publishing, 0 if none
          todo,     \* subscribers it still has to serve
          pc, op, res,
          log,      \* history: all publications, in order
          since     \* history: number of publications before the subscription
bus == <<subs, queue, tx, busy, todo, log, since>>
proc == <<pc, op, res>>
vars == <<bus, proc>>

NoOp == [k |-> "none", r |-> 0, v |-> 0]

Init ==
  /\ subs = {} /\ queue = [s \in Subs |-> <<>>] /\ tx = TRUE /\ busy = 0 /\ todo = {}
  /\ pc = [p \in Procs |-> "idle"] /\ op = [p \in Procs |-> NoOp] /\ res = [p \in Procs |-> 0]
  /\ log = <<>> /\ since = [s \in Subs |-> 0]

Invoke(p, o) ==
  /\ pc[p] = "idle"
  /\ pc' = [pc EXCEPT ![p] = "inv"]
  /\ op' = [op EXCEPT ![p] = o]
  /\ UNCHANGED <<res, bus>>

Done(p, v) ==
  /\ pc' = [pc EXCEPT ![p] = "lin"]
  /\ res' = [res EXCEPT ![p] = v]
  /\ UNCHANGED op

Return(p) ==
  /\ pc[p] = "lin"
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = NoOp]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ UNCHANGED bus

PubStart(p) ==
  /\ pc[p] = "inv" /\ op[p].k = "pub" /\ busy = 0
  /\ busy' = p /\ todo' = subs /\ log' = Append(log, op[p].v)
  /\ pc' = [pc EXCEPT ![p] = "pub"]
  /\ UNCHANGED <<subs, queue, tx, since, op, res>>

Deliver(p, s) ==
  /\ busy = p /\ s \in todo
  /\ todo' = todo \ {s}
  /\ IF s \in subs /\ Len(queue[s]) < Room
     THEN queue' = [queue EXCEPT ![s] = Append(@, op[p].v)]
     ELSE UNCHANGED queue
  /\ UNCHANGED <<subs, tx, busy, log, since, proc>>

PubEnd(p) ==
  /\ busy = p /\ todo = {}
  /\ busy' = 0
  /\ Done(p, 0)
  /\ UNCHANGED <<subs, queue, tx, todo, log, since>>

Sub(p) ==
  /\ pc[p] = "inv" /\ op[p].k = "sub" /\ busy = 0
  /\ LET s == op[p].r IN
     /\ subs' = subs \cup {s}
     /\ queue' = [queue EXCEPT ![s] = <<>>]
     /\ since' = [since EXCEPT ![s] = Len(log)]
  /\ Done(p, 0)
  /\ UNCHANGED <<tx, busy, todo, log>>

\* next/poll: waits; try: answers -1 (encoded 999) if there is nothing yet
Empty == 999
End == 998       \* answer when nothing will ever come
Ready(p) ==
  LET s == op[p].r IN
  \/ queue[s] # <<>>
  \/ (s \notin subs \/ ~tx)
Recv(p) ==
  /\ pc[p] = "inv" /\ op[p].k \in {"recv", "try"}
  /\ LET s == op[p].r IN
     IF queue[s] # <<>>
     THEN /\ queue' = [queue EXCEPT ![s] = Tail(@)]
          /\ Done(p, Head(queue[s]))
     ELSE /\ UNCHANGED queue
          /\ IF s \notin subs \/ ~tx THEN Done(p, End)
             ELSE op[p].k = "try" /\ Done(p, Empty)
  /\ UNCHANGED <<subs, tx, busy, todo, log, since>>

\* shut: no longer subscribed, what is waiting can still be received; close: gone
Close(p) ==
  /\ pc[p] = "inv" /\ op[p].k \in {"close", "shut"}
  /\ subs' = subs \ {op[p].r}
  /\ queue' = IF op[p].k = "close" THEN [queue EXCEPT ![op[p].r] = <<>>] ELSE queue
  /\ Done(p, 0)
  /\ UNCHANGED <<tx, busy, todo, log, since>>

DropTx(p) ==
  /\ pc[p] = "inv" /\ op[p].k = "droptx" /\ busy = 0
  /\ tx' = FALSE
  /\ Done(p, 0)
  /\ UNCHANGED <<subs, queue, busy, todo, log, since>>

\* A receiver stops waiting
Cancel(p) ==
  /\ pc[p] = "inv" /\ op[p].k = "recv"
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = NoOp]
  /\ UNCHANGED <<res, bus>>

Internal(p) ==
  \/ PubStart(p) \/ (\E s \in todo : Deliver(p, s)) \/ PubEnd(p)
  \/ Sub(p) \/ Recv(p) \/ Close(p) \/ DropTx(p)

Quiet == \A p \in Procs : pc[p] # "idle" =>
  (pc[p] = "inv" /\ op[p].k = "recv" /\ ~Ready(p))

UsedBy(s) == {p \in Procs : op[p].r = s}
Next ==
  \E p \in Procs :
    \/ tx /\ Len(log) < MaxPub /\ Invoke(p, [k |-> "pub", r |-> 0, v |-> Len(log) + 1])
    \/ \E s \in Subs : /\ UsedBy(s) = {}
                       /\ \/ s \notin subs /\ queue[s] = <<>> /\ tx /\ Invoke(p, [k |-> "sub", r |-> s, v |-> 0])
                          \/ s \in subs /\ \E k \in {"recv", "try", "close", "shut"} : Invoke(p, [k |-> k, r |-> s, v |-> 0])
                          \/ s \notin subs /\ queue[s] # <<>> /\ Invoke(p, [k |-> "try", r |-> s, v |-> 0])
    \/ Internal(p) \/ Return(p) \/ Cancel(p)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Internal(p)) /\ WF_vars(Return(p))

-----------------------------------------------------------------------------
\* What a subscriber has waiting was published after it subscribed, in that order, once
InOrder == \A s \in Subs : \A i, j \in DOMAIN queue[s] : i < j =>
   \E a, b \in DOMAIN log : a < b /\ a > since[s] /\ log[a] = queue[s][i] /\ log[b] = queue[s][j]
NotOld == \A s \in Subs : \A i \in DOMAIN queue[s] : \E a \in DOMAIN log : a > since[s] /\ log[a] = queue[s][i]
\* A publication which ended reached everybody who had room
Delivered == [][\A p \in Procs, s \in Subs :
     (busy = p /\ s \in todo /\ s \notin todo' /\ s \in subs /\ Len(queue[s]) < Room)
        => queue'[s] = Append(queue[s], op[p].v)]_vars
OnlyOwn == [][\A s \in Subs : queue'[s] # queue[s] =>
     \/ s \in todo \/ \E p \in Procs : op[p].r = s]_vars
\* Publishing never waits for a receiver
NonBlocking == \A p \in Procs : (pc[p] = "inv" /\ op[p].k = "pub") ~> (pc[p] = "lin")
Woken == \A p \in Procs : (pc[p] = "inv" /\ op[p].k = "recv" /\ Ready(p)) ~> (pc[p] # "inv" \/ op[p].k # "recv")
=============================================================================
