----------------------------- MODULE SharedLock -----------------------------
(***************************************************************************)
(* The device lock of lxi-device as its users see it.                      *)
(*                                                                         *)
(* A lock record is shared by any number of handles (clients).  A handle   *)
(* may hold the exclusive lock, the shared lock (under a key), both, or    *)
(* none.  Independently of the lock the device itself is used by one       *)
(* process at a time (a device guard).                                     *)
(*                                                                         *)
(* Operations are split in an invocation, one atomic effect (Lin) and a    *)
(* response, so that concurrent histories can be checked for               *)
(* linearizability.  A waiting request has no effect until it is granted.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Procs,    \* processes issuing operations
          Handles,  \* lock handles
          Keys      \* non-empty lock strings, as positive numbers; 0 = exclusive

VARIABLES alive,    \* handles that exist
          excl,     \* handle holding the exclusive lock, or 0
          shared,   \* handles holding the shared lock
          key,      \* key of the shared lock, 0 if there is none
          dev,      \* process using the device, or 0
          pc,       \* "idle" | "inv" | "lin" per process
          op,       \* operation of the process
          res       \* its result once it took effect

lockvars == <<alive, excl, shared, key, dev>>
procvars == <<pc, op, res>>
vars == <<alive, excl, shared, key, dev, pc, op, res>>

Res(r, x, n) == [r |-> r, x |-> x, n |-> n]
NoRes == Res("", FALSE, 0)
NoOp == [k |-> "none", h |-> 0, key |-> 0, w |-> FALSE]

\* May handle h use the device?
CanUse(h) == IF excl # 0 THEN excl = h ELSE shared = {} \/ h \in shared

\* Answer to a request of h for the exclusive lock (k = 0) or the shared lock k
AcqRes(h, k) ==
  IF k = 0
  THEN IF excl = h THEN "already"
       ELSE IF excl # 0 THEN "refused"
       ELSE IF shared = {} \/ h \in shared THEN "ok"
       ELSE "refused"
  ELSE IF h \in shared THEN "already"
       ELSE IF shared = {} THEN
              (IF excl = 0 THEN "ok" ELSE IF excl = h THEN "already" ELSE "refused")
       ELSE IF key = k THEN "ok"
       ELSE "refused"

AcqEffect(h, k) ==
  IF AcqRes(h, k) # "ok" THEN UNCHANGED <<excl, shared, key>>
  ELSE IF k = 0 THEN excl' = h /\ UNCHANGED <<shared, key>>
  ELSE shared' = shared \cup {h} /\ key' = k /\ UNCHANGED excl

RelRes(h) == IF excl = h THEN "excl" ELSE IF h \in shared THEN "shared" ELSE "none"

RelEffect(h) ==
  /\ excl' = IF excl = h THEN 0 ELSE excl
  /\ shared' = shared \ {h}
  /\ key' = IF shared \ {h} = {} THEN 0 ELSE key

Init ==
  /\ alive = {} /\ excl = 0 /\ shared = {} /\ key = 0 /\ dev = 0
  /\ pc = [p \in Procs |-> "idle"]
  /\ op = [p \in Procs |-> NoOp]
  /\ res = [p \in Procs |-> NoRes]

New(h) == /\ h \notin alive
          /\ alive' = alive \cup {h}
          /\ UNCHANGED <<excl, shared, key, dev, procvars>>

Invoke(p, o) ==
  /\ pc[p] = "idle"
  /\ o.h \in alive
  /\ pc' = [pc EXCEPT ![p] = "inv"]
  /\ op' = [op EXCEPT ![p] = o]
  /\ res' = [res EXCEPT ![p] = NoRes]
  /\ UNCHANGED lockvars

(***************************************************************************)
(* What the operation of p answers if it takes effect now; "wait" if it    *)
(* cannot.  A device request may be told that the device is busy while     *)
(* another request for the device is being decided.                        *)
(***************************************************************************)
Contended(p) == \/ dev # 0
                \/ \E q \in Procs \ {p} : pc[q] # "idle" /\ op[q].k = "lock"

Answers(p) ==
  LET o == op[p] IN
  CASE o.k = "acq"  -> LET r == AcqRes(o.h, o.key) IN
                       IF o.w /\ r = "refused" THEN {} ELSE {r}
    [] o.k = "lock" -> IF o.w
                       THEN (IF CanUse(o.h) /\ dev = 0 THEN {"ok"} ELSE {})
                       ELSE (IF CanUse(o.h) /\ dev = 0 THEN {"ok"} ELSE {})
                            \cup (IF ~CanUse(o.h) THEN {"refused"} ELSE {})
                            \cup (IF Contended(p) THEN {"busy"} ELSE {})
    [] o.k = "rel"  -> {RelRes(o.h)}
    [] o.k = "can"  -> {IF CanUse(o.h) THEN "ok" ELSE "refused"}
    [] OTHER        -> {"ok"}          \* force, drop, unlock, info

Lin(p) ==
  /\ pc[p] = "inv"
  /\ \E r \in Answers(p) :
       /\ pc' = [pc EXCEPT ![p] = "lin"]
       /\ LET o == op[p] IN
          CASE o.k = "acq" ->
                 /\ AcqEffect(o.h, o.key)
                 /\ UNCHANGED <<alive, dev>>
            [] o.k = "lock" ->
                 /\ dev' = IF r = "ok" THEN p ELSE dev
                 /\ UNCHANGED <<alive, excl, shared, key>>
            [] o.k = "unlock" ->
                 /\ dev = p /\ dev' = 0
                 /\ UNCHANGED <<alive, excl, shared, key>>
            [] o.k \in {"rel", "force"} ->
                 /\ RelEffect(o.h)
                 /\ UNCHANGED <<alive, dev>>
            [] o.k = "drop" ->
                 /\ RelEffect(o.h)
                 /\ alive' = alive \ {o.h}
                 /\ UNCHANGED dev
            [] OTHER -> UNCHANGED lockvars
       /\ res' = [res EXCEPT ![p] =
            IF op[p].k = "info" THEN Res("ok", excl # 0, Cardinality(shared))
            ELSE Res(r, FALSE, 0)]
       /\ UNCHANGED op

Return(p) ==
  /\ pc[p] = "lin"
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = NoOp]
  /\ res' = [res EXCEPT ![p] = NoRes]
  /\ UNCHANGED lockvars

\* A waiting request is given up before it took effect
Cancel(p) ==
  /\ pc[p] = "inv" /\ op[p].w
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = NoOp]
  /\ UNCHANGED <<res, lockvars>>

\* No pending request could take effect
Quiet == \A p \in Procs : pc[p] # "idle" => (pc[p] = "inv" /\ Answers(p) = {})

Ops == [k : {"acq"}, h : Handles, key : Keys \cup {0}, w : BOOLEAN]
       \cup [k : {"lock"}, h : Handles, key : {0}, w : BOOLEAN]
       \cup [k : {"rel", "drop", "can", "info"}, h : Handles, key : {0}, w : {FALSE}]

Next ==
  \/ \E h \in Handles : New(h)
  \/ \E p \in Procs :
       \/ \E o \in Ops :
            /\ dev = p => o.k # "lock"
            /\ o.k = "drop" => \A q \in Procs : op[q].h # o.h
            /\ \A q \in Procs : op[q].k = "drop" => op[q].h # o.h
            /\ Invoke(p, o)
       \/ /\ dev = p
          /\ \E h \in alive : Invoke(p, [k |-> "unlock", h |-> h, key |-> 0, w |-> FALSE])
       \/ Lin(p)
       \/ Return(p)
       \/ Cancel(p)

Spec == Init /\ [][Next]_vars

FairSpec == Spec /\ \A p \in Procs : WF_vars(Lin(p)) /\ WF_vars(Return(p))

-----------------------------------------------------------------------------
(* Properties *)

TypeOK ==
  /\ alive \subseteq Handles
  /\ excl \in alive \cup {0}
  /\ shared \subseteq alive
  /\ key \in Keys \cup {0}
  /\ dev \in Procs \cup {0}

\* C01
Exclusive == (excl # 0 /\ shared # {}) => excl \in shared
OneKey == (shared = {}) <=> (key = 0)
KeyStable == [][\A h \in shared : h \in shared' => key' = key]_vars
RefusalKeeps ==
  [][\A p \in Procs : (pc[p] = "inv" /\ pc'[p] = "lin" /\ op[p].k = "acq" /\ res'[p].r # "ok")
        => UNCHANGED <<excl, shared, key>>]_vars
SuccessHolds ==
  [][\A p \in Procs : (pc[p] = "inv" /\ pc'[p] = "lin" /\ op[p].k = "acq" /\ res'[p].r = "ok")
        => (IF op[p].key = 0 THEN excl' = op[p].h ELSE op[p].h \in shared' /\ key' = op[p].key)]_vars

\* C02: whoever is given the device is entitled to it at that moment
Entitled(h) == /\ \A g \in Handles \ {h} : excl # g
               /\ (shared # {} => h \in shared)
GrantSafe ==
  [][\A p \in Procs : (dev # p /\ dev' = p)
        => (dev = 0 /\ (excl = op[p].h \/ Entitled(op[p].h)))]_vars

\* C04: an operation only touches the locks of its own handle; a dropped handle holds nothing
OwnLocksOnly ==
  [][\A h \in Handles :
        ((excl = h) # (excl' = h) \/ (h \in shared) # (h \in shared'))
          => \E p \in Procs : pc[p] = "inv" /\ pc'[p] = "lin" /\ op[p].h = h]_vars
DeadHoldNothing == \A h \in Handles \ alive : excl # h /\ h \notin shared
ReleaseComplete ==
  [][\A p \in Procs : (pc[p] = "inv" /\ pc'[p] = "lin" /\ op[p].k \in {"rel", "force", "drop"})
        => (excl' # op[p].h /\ op[p].h \notin shared')]_vars
CancelKeeps ==
  [][\A p \in Procs : (pc[p] = "inv" /\ pc'[p] = "idle") => UNCHANGED lockvars]_vars

\* C03: a request that stays grantable is granted
Progress == \A p \in Procs :
  (pc[p] = "inv" /\ Answers(p) # {}) ~> (pc[p] # "inv" \/ Answers(p) = {})
=============================================================================
