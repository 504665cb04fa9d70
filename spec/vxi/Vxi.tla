-------------------------------- MODULE Vxi --------------------------------
(* A VXI-11 server (core and abort channel, and the port mapper) as its      *)
(* clients, its devices and the peers of its interrupt channels see it.      *)
(*                                                                           *)
(* Calls of a connection are handled one after the other.  What a call does  *)
(* happens at one moment between call and reply; that moment is a step of    *)
(* its own, except where the device sees it (exec, trigger, ...), in which   *)
(* case obtaining the device and using it are two steps.                     *)
EXTENDS LockOps, Integers

CONSTANTS Conns,   \* connections, positive numbers
          Devs,    \* devices
          Chans    \* ends of interrupt channels

VARIABLES
  cf,     \* configuration: [ap: abort port, pm: port map <<prog, vers, prot, port>>]
  knd,    \* kind of a connection: "none", "core", "abort", "pmt", "pmu"
  cli,    \* client side: "none", "open", "shut" (nothing more to come), "gone", "closed" (end seen)
  up,     \* server side: "up", "ended", "junked" (ended because of what it received)
  q,      \* calls received and not handled
  rep,    \* replies on their way
  gr,     \* has the device for the first call of q
  ab,     \* aborts which arrived while the first call of q was waiting
  links,  \* link id -> [c: owner, d: device, in, out: bytes, srq: <<>> or <<handle>>, due: events to report]
  lock,   \* device -> lock, see LockOps
  user,   \* device -> 0, connection which has it, -1: somebody outside
  chan,   \* connection -> <<>> or <<interrupt channel>>: [p: end, pg, pv: program and version]
  wire,   \* end of interrupt channel -> calls on their way
  dead    \* ends which do not exist any more

cvars == <<knd, cli, up>>
vars == <<cf, knd, cli, up, q, rep, gr, ab, links, lock, user, chan, wire, dead>>

Init0 ==
  /\ knd = [c \in Conns |-> "none"] /\ cli = [c \in Conns |-> "none"]
  /\ up = [c \in Conns |-> "up"]
  /\ q = [c \in Conns |-> <<>>] /\ rep = [c \in Conns |-> <<>>]
  /\ gr = [c \in Conns |-> FALSE] /\ ab = [c \in Conns |-> 0]
  /\ links = <<>>
  /\ lock = [d \in Devs |-> FreeLock] /\ user = [d \in Devs |-> 0]
  /\ chan = [c \in Conns |-> <<>>]
  /\ wire = [p \in Chans |-> <<>>] /\ dead = {}

-----------------------------------------------------------------------------
(* Calls: [x: transaction id, rv: RPC version, cr, ve: authentication flavours,
   pg, vs, pr: program, version, procedure, op: what it is,
   lid, w: wait for locks, e: end flag, tc: termination character or -1,
   n: size, data, b: flag, h: handle, d: device (0: unknown), nl: id of the link it creates,
   p: end of the interrupt channel (0: nobody there), ipg, ipv] *)

Prog(k) == CASE k = "core" -> 395183 [] k = "abort" -> 395184 [] OTHER -> 100000
Vers(k) == IF k \in {"core", "abort"} THEN 1 ELSE 2
CoreProcs == {0} \cup 10..20 \cup {22, 23, 25, 26}
Procs(k) == CASE k = "core" -> CoreProcs [] k = "abort" -> {0, 1} [] OTHER -> {0, 3, 4}

Status(k, m) ==
  IF m.rv # 2 THEN "rpcv"
  ELSE IF m.cr # 0 THEN "cred"
  ELSE IF m.ve # 0 THEN "verf"
  ELSE IF m.pg # Prog(k) THEN "prog"
  ELSE IF m.vs # Vers(k) THEN "mism"
  ELSE IF m.pr \notin Procs(k) THEN "proc"
  ELSE "ok"

Access == {"write", "read", "stb", "trig", "clear", "rem", "loc"}
LinkOps == Access \cup {"lock", "unlock", "srq", "docmd", "destroy"}
Stop == {"junk", "bad"}     \* cannot be decoded: nothing of it, or its arguments

ErrBusy == 3      ErrLink == 4    ErrChan == 6   ErrOp == 8   ErrLocked == 11
ErrNoLock == 12   ErrAbort == 23  ErrDup == 29   AnyErr == -1

Res(m, err, v, data, d) ==
  [x |-> m.x, st |-> "ok", err |-> err, v |-> v, data |-> data, d |-> d, t |-> FALSE, lo |-> 0, op |-> m.op]

Live(c) == up[c] = "up" /\ q[c] # <<>> /\ cli[c] # "closed"
Hd(c) == Head(q[c])
Mine(c, lid) == lid \in DOMAIN links /\ links[lid].c = c

\* The first call of c has been handled
Fin(c, r) ==
  /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ rep' = [rep EXCEPT ![c] = Append(@, r)]
  /\ ab' = [ab EXCEPT ![c] = 0]

Drop(f, S) == [i \in DOMAIN f \ S |-> f[i]]

\* A call which is being handled and works on a link of its connection
Run(c) == Live(c) /\ Status(knd[c], Hd(c)) = "ok" /\ Hd(c).op \notin Stop
OnLink(c) == knd[c] = "core" /\ Run(c) /\ Hd(c).op \in LinkOps /\ Mine(c, Hd(c).lid)
DevOf(c) == links[Hd(c).lid].d

\* Someone else is, or may still be, working with device d
Others(c, d) ==
  \/ user[d] # 0
  \/ \E b \in Conns \ {c} :
       \/ OnLink(b) /\ Hd(b).op \in Access /\ DevOf(b) = d
       \/ \E i \in DOMAIN rep[b] : rep[b][i].d = d

Usable(c) == CanUse(lock[DevOf(c)], Hd(c).lid) /\ user[DevOf(c)] = 0

\* Can the request of c, which may wait, be satisfied now?
Grantable(c) ==
  LET m == Hd(c) IN
  CASE m.op \in Access -> Usable(c)
    [] m.op = "lock" -> AcqRes(lock[DevOf(c)], m.lid, <<>>) # "refused"
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Handling calls *)

UNC(c) == UNCHANGED <<cf, knd, cli, up>>

\* Not for this server, or not understood
Refused(c) ==
  /\ Live(c) /\ Hd(c).op # "junk" /\ Status(knd[c], Hd(c)) # "ok"
  /\ Fin(c, [Res(Hd(c), 0, 0, <<>>, 0) EXCEPT !.st = Status(knd[c], Hd(c)),
                                             !.lo = IF Hd(c).rv # 2 THEN 2 ELSE Vers(knd[c])])
  /\ UNCHANGED <<cf, knd, cli, up, gr, links, lock, user, chan, wire, dead>>
Garbage(c) ==
  /\ Live(c) /\ Hd(c).op = "bad" /\ Status(knd[c], Hd(c)) = "ok"
  /\ Fin(c, [Res(Hd(c), 0, 0, <<>>, 0) EXCEPT !.st = "garb"])
  /\ UNCHANGED <<cf, knd, cli, up, gr, links, lock, user, chan, wire, dead>>
Ignored(c) ==
  /\ Live(c) /\ knd[c] = "pmu" /\ Hd(c).op \in Stop
  /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<cf, knd, cli, up, rep, gr, ab, links, lock, user, chan, wire, dead>>

Simple(c, err, v, data) ==
  /\ Fin(c, Res(Hd(c), err, v, data, 0))
  /\ UNCHANGED <<cf, knd, cli, up, gr, user>>

Null(c) ==
  /\ Run(c) /\ Hd(c).op = "null" /\ Simple(c, 0, 0, <<>>)
  /\ UNCHANGED <<links, lock, chan, wire, dead>>

\* No such link, or not one of this connection
NoLink(c) ==
  /\ knd[c] = "core" /\ Run(c) /\ Hd(c).op \in LinkOps /\ ~Mine(c, Hd(c).lid)
  /\ Simple(c, IF Hd(c).op = "docmd" THEN AnyErr ELSE ErrLink, 0, <<>>)
  /\ UNCHANGED <<links, lock, chan, wire, dead>>

NewLink(c, d) == [c |-> c, d |-> d, in |-> <<>>, out |-> <<>>, srq |-> <<>>, due |-> 0]

Create(c) ==
  /\ knd[c] = "core" /\ Run(c) /\ Hd(c).op = "create"
  /\ LET m == Hd(c) IN
     \/ /\ m.d = 0
        /\ Simple(c, AnyErr, 0, <<>>) /\ UNCHANGED <<links, lock>>
     \/ /\ m.d # 0 /\ m.nl > 0 /\ m.nl \notin DOMAIN links
        /\ m.b => AcqRes(lock[m.d], m.nl, <<>>) = "ok"
        /\ links' = [i \in DOMAIN links \cup {m.nl} |-> IF i = m.nl THEN NewLink(c, m.d) ELSE links[i]]
        /\ lock' = IF m.b THEN [lock EXCEPT ![m.d] = Acq(@, m.nl, <<>>)] ELSE lock
        /\ Simple(c, 0, m.nl, <<>>)
     \/ /\ m.d # 0 /\ m.b /\ AcqRes(lock[m.d], 0 - 9, <<>>) = "refused"
        /\ Fin(c, [Res(m, AnyErr, 0, <<>>, 0) EXCEPT !.t = TRUE])
        /\ UNCHANGED <<cf, knd, cli, up, gr, user, links, lock>>
  /\ UNCHANGED <<chan, wire, dead>>

Destroy(c) ==
  /\ OnLink(c) /\ Hd(c).op = "destroy"
  /\ links' = Drop(links, {Hd(c).lid})
  /\ lock' = [lock EXCEPT ![DevOf(c)] = Rel(@, Hd(c).lid)]
  /\ Simple(c, 0, 0, <<>>)
  /\ UNCHANGED <<chan, wire, dead>>

Lock(c) ==
  /\ OnLink(c) /\ Hd(c).op = "lock"
  /\ LET m == Hd(c)  d == DevOf(c)  r == AcqRes(lock[d], m.lid, <<>>) IN
     CASE r = "ok" -> /\ lock' = [lock EXCEPT ![d] = Acq(@, m.lid, <<>>)]
                      /\ Simple(c, 0, 0, <<>>)
       [] r = "already" -> Simple(c, ErrNoLock, 0, <<>>) /\ UNCHANGED lock
       [] OTHER -> ~m.w /\ Simple(c, ErrLocked, 0, <<>>) /\ UNCHANGED lock
  /\ UNCHANGED <<links, chan, wire, dead>>

Unlock(c) ==
  /\ OnLink(c) /\ Hd(c).op = "unlock"
  /\ LET d == DevOf(c) IN
     /\ Simple(c, IF RelRes(lock[d], Hd(c).lid) = "none" THEN ErrNoLock ELSE 0, 0, <<>>)
     /\ lock' = [lock EXCEPT ![d] = Rel(@, Hd(c).lid)]
  /\ UNCHANGED <<links, chan, wire, dead>>

Srq(c) ==
  /\ OnLink(c) /\ Hd(c).op = "srq"
  /\ links' = [links EXCEPT ![Hd(c).lid].srq = IF Hd(c).b THEN <<Hd(c).h>> ELSE <<>>, ![Hd(c).lid].due = 0]
  /\ Simple(c, 0, 0, <<>>)
  /\ UNCHANGED <<lock, chan, wire, dead>>

Docmd(c) ==
  /\ OnLink(c) /\ Hd(c).op = "docmd"
  /\ Simple(c, ErrOp, 0, <<>>)
  /\ UNCHANGED <<links, lock, chan, wire, dead>>

IntrCreate(c) ==
  /\ knd[c] = "core" /\ Run(c) /\ Hd(c).op = "ichan"
  /\ LET m == Hd(c) IN
     IF chan[c] # <<>> THEN Simple(c, ErrDup, 0, <<>>) /\ UNCHANGED chan
     ELSE \/ m.p \in {0} \cup dead /\ Simple(c, AnyErr, 0, <<>>) /\ UNCHANGED chan
          \/ /\ m.p # 0
             /\ chan' = [chan EXCEPT ![c] = <<[p |-> m.p, pg |-> m.ipg, pv |-> m.ipv]>>]
             /\ Simple(c, 0, 0, <<>>)
  /\ UNCHANGED <<links, lock, wire, dead>>

IntrDestroy(c) ==
  /\ knd[c] = "core" /\ Run(c) /\ Hd(c).op = "dchan"
  /\ Simple(c, IF chan[c] = <<>> THEN ErrChan ELSE 0, 0, <<>>)
  /\ chan' = [chan EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<links, lock, wire, dead>>

-----------------------------------------------------------------------------
(* Calls which use the device *)

\* Reading: up to the size asked for, up to and including the termination character
Min2(a, b) == IF a < b THEN a ELSE b
Pos(s, ch) == IF \E i \in DOMAIN s : s[i] = ch
              THEN CHOOSE i \in DOMAIN s : s[i] = ch /\ \A j \in 1..(i - 1) : s[j] # ch
              ELSE 0
ReadLen(s, m) == LET p == IF m.tc >= 0 THEN Pos(s, m.tc) ELSE 0
                 IN Min2(m.n, IF p > 0 THEN p ELSE Len(s))
ReadWhy(s, m) == LET k == ReadLen(s, m) IN
  (IF k = m.n THEN 1 ELSE 0)
  + (IF m.tc >= 0 /\ k > 0 /\ s[k] = m.tc THEN 2 ELSE 0)
  + (IF k = Len(s) THEN 4 ELSE 0)

\* Nothing the device notices
Quick(c) ==
  /\ OnLink(c) /\ Usable(c)
  /\ LET m == Hd(c)  k == links[m.lid] IN
     \/ /\ m.op = "write" /\ ~m.e
        /\ links' = [links EXCEPT ![m.lid].in = @ \o m.data]
        /\ Fin(c, Res(m, 0, Len(m.data), <<>>, k.d))
     \/ /\ m.op = "read"
        /\ links' = [links EXCEPT ![m.lid].out = SubSeq(@, ReadLen(@, m) + 1, Len(@))]
        /\ Fin(c, Res(m, 0, ReadWhy(k.out, m), SubSeq(k.out, 1, ReadLen(k.out, m)), k.d))
  /\ UNCHANGED <<cf, knd, cli, up, gr, lock, user, chan, wire, dead>>

Grant(c) ==
  /\ OnLink(c) /\ ~gr[c] /\ Usable(c)
  /\ Hd(c).op \in Access \ {"read"} /\ (Hd(c).op = "write" => Hd(c).e)
  /\ gr' = [gr EXCEPT ![c] = TRUE]
  /\ user' = [user EXCEPT ![DevOf(c)] = c]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, ab, links, lock, chan, wire, dead>>

\* Not entitled, or busy
Denied(c) ==
  /\ OnLink(c) /\ ~gr[c] /\ Hd(c).op \in Access
  /\ LET m == Hd(c)  d == DevOf(c) IN
     \/ /\ ~m.w /\ ~CanUse(lock[d], m.lid)
        /\ Fin(c, Res(m, ErrLocked, 0, <<>>, d))
     \/ /\ ~m.w /\ Others(c, d)
        /\ Fin(c, Res(m, ErrBusy, 0, <<>>, d))
     \/ /\ m.w /\ (~CanUse(lock[d], m.lid) \/ Others(c, d))
        /\ Fin(c, [Res(m, ErrLocked, 0, <<>>, d) EXCEPT !.t = TRUE])
  /\ UNCHANGED <<cf, knd, cli, up, gr, links, lock, user, chan, wire, dead>>
LockTimeout(c) ==
  /\ OnLink(c) /\ Hd(c).op = "lock" /\ Hd(c).w /\ ~Grantable(c)
  /\ Fin(c, [Res(Hd(c), ErrLocked, 0, <<>>, 0) EXCEPT !.t = TRUE])
  /\ UNCHANGED <<cf, knd, cli, up, gr, links, lock, user, chan, wire, dead>>
AbortHit(c) ==
  /\ OnLink(c) /\ Hd(c).op \in Access \cup {"lock"} /\ Hd(c).w /\ ~gr[c] /\ ab[c] > 0
  /\ Fin(c, Res(Hd(c), ErrAbort, 0, <<>>, IF Hd(c).op = "lock" THEN 0 ELSE DevOf(c)))
  /\ UNCHANGED <<cf, knd, cli, up, gr, links, lock, user, chan, wire, dead>>

\* What the device sees.  err: what it answers (0: success)
DevErr(err) == CASE err = 0 -> 0 [] err = 1 -> 8 [] err = 2 -> 15 [] err = 3 -> 17 [] OTHER -> 3
Used(d, op) == /\ user[d] \in Conns /\ gr[user[d]]
               /\ Hd(user[d]).op = op
Done(d, r) ==
  LET c == user[d] IN
  /\ Fin(c, r) /\ gr' = [gr EXCEPT ![c] = FALSE] /\ user' = [user EXCEPT ![d] = 0]
  /\ UNCHANGED <<cf, knd, cli, up, lock, chan, wire, dead>>

Exec(d, b, r) ==
  /\ Used(d, "write")
  /\ LET c == user[d]  m == Hd(c) IN
     /\ links[m.lid].in \o m.data = b
     /\ links' = [links EXCEPT ![m.lid].in = <<>>, ![m.lid].out = @ \o r]
     /\ Done(d, Res(m, 0, Len(m.data), <<>>, d))
Trig(d, err) ==
  /\ Used(d, "trig") /\ UNCHANGED links
  /\ Done(d, Res(Hd(user[d]), DevErr(err), 0, <<>>, d))
Clear(d, err) ==
  /\ Used(d, "clear")
  /\ LET l == Hd(user[d]).lid IN
     \/ links' = [links EXCEPT ![l].in = <<>>, ![l].out = <<>>]
     \/ err # 0 /\ UNCHANGED links
  /\ Done(d, Res(Hd(user[d]), DevErr(err), 0, <<>>, d))
Remote(d, on, err) ==
  /\ Used(d, IF on THEN "rem" ELSE "loc") /\ UNCHANGED links
  /\ Done(d, Res(Hd(user[d]), DevErr(err), 0, <<>>, d))
Mav(s, on) == (s \div 32) * 32 + (s % 16) + IF on THEN 16 ELSE 0
Stb(d, s, err) ==
  /\ Used(d, "stb") /\ UNCHANGED links
  /\ LET m == Hd(user[d]) IN
     Done(d, Res(m, DevErr(err), IF err = 0 THEN Mav(s, links[m.lid].out # <<>>) ELSE 0, <<>>, d))

-----------------------------------------------------------------------------
(* Abort channel *)

Waiting(c, lid) == OnLink(c) /\ Hd(c).lid = lid /\ Hd(c).w /\ Hd(c).op \in Access \cup {"lock"} /\ ~gr[c]
MaxAb == 50
Abort(c) ==
  /\ knd[c] = "abort" /\ Run(c) /\ Hd(c).op = "abort"
  /\ LET lid == Hd(c).lid IN
     IF lid \in DOMAIN links
     THEN LET o == links[lid].c IN
          /\ q' = [q EXCEPT ![c] = Tail(@)]
          /\ rep' = [rep EXCEPT ![c] = Append(@, Res(Hd(c), 0, 0, <<>>, 0))]
          /\ ab' = IF Waiting(o, lid) THEN [ab EXCEPT ![o] = Min2(MaxAb, @ + 1)] ELSE ab
          /\ UNCHANGED <<cf, knd, cli, up, gr, user>>
     ELSE Simple(c, ErrLink, 0, <<>>)
  /\ UNCHANGED <<links, lock, chan, wire, dead>>

-----------------------------------------------------------------------------
(* Port mapper *)

Getport(c) ==
  /\ knd[c] \in {"pmt", "pmu"} /\ Run(c) /\ Hd(c).op = "getport"
  /\ LET t == Hd(c).data
         S == {i \in DOMAIN cf.pm : \A k \in 1..3 : cf.pm[i][k] = t[k]}
     IN Simple(c, 0, IF S = {} THEN 0 ELSE cf.pm[CHOOSE i \in S : TRUE][4], <<>>)
  /\ UNCHANGED <<links, lock, chan, wire, dead>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Dump(c) ==
  /\ knd[c] \in {"pmt", "pmu"} /\ Run(c) /\ Hd(c).op = "dump"
  /\ Simple(c, 0, 0, Flat(cf.pm))
  /\ UNCHANGED <<links, lock, chan, wire, dead>>

-----------------------------------------------------------------------------
(* Status events and interrupts *)

Asked == {i \in DOMAIN links : links[i].srq # <<>>}
\* A slow listener may miss further events while it has not dealt with the last
Publish ==
  /\ \E S \in SUBSET {i \in Asked : links[i].due > 0} :
       links' = [i \in DOMAIN links |->
                   IF i \in Asked \ S THEN [links[i] EXCEPT !.due = @ + 1] ELSE links[i]]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, lock, user, chan, wire, dead>>

Notify(lid) ==
  /\ lid \in DOMAIN links /\ links[lid].due > 0
  /\ links' = [links EXCEPT ![lid].due = @ - 1]
  /\ LET ch == chan[links[lid].c] IN
     wire' = IF ch = <<>> THEN wire
             ELSE [wire EXCEPT ![ch[1].p] = Append(@, [pg |-> ch[1].pg, pv |-> ch[1].pv, h |-> links[lid].srq[1]])]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, lock, user, chan, dead>>

Intr(p, pg, pv, h) ==
  /\ wire[p] # <<>> /\ Head(wire[p]) = [pg |-> pg, pv |-> pv, h |-> h]
  /\ wire' = [wire EXCEPT ![p] = Tail(@)]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, links, lock, user, chan, dead>>

PeerGone(p) ==
  /\ dead' = dead \cup {p}
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, links, lock, user, chan, wire>>

-----------------------------------------------------------------------------
(* Connections *)

Connect(c, k) ==
  /\ cli[c] = "none"
  /\ knd' = [knd EXCEPT ![c] = k] /\ cli' = [cli EXCEPT ![c] = "open"]
  /\ UNCHANGED <<cf, up, q, rep, gr, ab, links, lock, user, chan, wire, dead>>

Call(c, m) ==
  /\ cli[c] = "open"
  /\ q' = IF up[c] = "up" THEN [q EXCEPT ![c] = Append(@, m)] ELSE q
  /\ UNCHANGED <<cf, knd, cli, up, rep, gr, ab, links, lock, user, chan, wire, dead>>

Shut(c) ==
  /\ cli[c] = "open" /\ cli' = [cli EXCEPT ![c] = "shut"]
  /\ UNCHANGED <<cf, knd, up, q, rep, gr, ab, links, lock, user, chan, wire, dead>>
Gone(c) ==
  /\ cli[c] \in {"open", "shut", "closed"} /\ cli' = [cli EXCEPT ![c] = "gone"]
  /\ UNCHANGED <<cf, knd, up, q, rep, gr, ab, links, lock, user, chan, wire, dead>>

\* The server is done with a connection: links, locks and its interrupt channel go with it
OfConn(c) == {i \in DOMAIN links : links[i].c = c}
RECURSIVE RelAll(_, _)
RelAll(L, S) == IF S = {} THEN L ELSE LET i == CHOOSE i \in S : TRUE IN RelAll(Rel(L, i), S \ {i})
Junked(c) == q[c] # <<>> /\ Hd(c).op \in Stop /\ (Hd(c).op = "bad" => Status(knd[c], Hd(c)) = "ok")
End(c) ==
  /\ up[c] = "up" /\ cli[c] # "none" /\ knd[c] # "pmu" /\ ~gr[c]
  /\ \/ cli[c] \in {"gone", "closed"} /\ up' = [up EXCEPT ![c] = "ended"]
     \/ cli[c] = "shut" /\ q[c] = <<>> /\ up' = [up EXCEPT ![c] = "ended"]
     \/ Junked(c) /\ up' = [up EXCEPT ![c] = "junked"]
  /\ q' = [q EXCEPT ![c] = <<>>]
  /\ lock' = [d \in Devs |-> RelAll(lock[d], {i \in OfConn(c) : links[i].d = d})]
  /\ links' = Drop(links, OfConn(c))
  /\ chan' = [chan EXCEPT ![c] = <<>>]
  /\ ab' = [ab EXCEPT ![c] = 0]
  /\ UNCHANGED <<cf, knd, cli, rep, gr, user, wire, dead>>

\* The client may see the end before what the connection had has been given back
Eof(c) ==
  /\ cli[c] \in {"open", "shut"} /\ knd[c] # "pmu"
  /\ CASE up[c] = "junked" -> TRUE
       [] up[c] = "ended" -> rep[c] = <<>>
       [] OTHER -> ~gr[c] /\ (Junked(c) \/ (cli[c] = "shut" /\ q[c] = <<>> /\ rep[c] = <<>>))
  /\ cli' = [cli EXCEPT ![c] = "closed"]
  /\ UNCHANGED <<cf, knd, up, q, rep, gr, ab, links, lock, user, chan, wire, dead>>

\* r: [x, st, err, v, data, early, ap, lo]
Reply(c, r) ==
  /\ cli[c] \in {"open", "shut"} /\ rep[c] # <<>>
  /\ LET h == Head(rep[c]) IN
     /\ h.x = r.x /\ h.st = r.st
     /\ h.st \in {"mism", "rpcv"} => r.lo = h.lo /\ r.hi = h.lo
     /\ h.st = "ok" =>
          /\ IF h.err = AnyErr THEN r.err # 0 ELSE r.err = h.err
          /\ h.err = 0 => r.v = h.v /\ r.data = h.data
          /\ h.err # 0 => r.data = <<>>
          /\ h.t => ~r.early
          /\ h.op = "create" /\ h.err = 0 => r.ap = cf.ap
  /\ rep' = [rep EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<cf, knd, cli, up, q, gr, ab, links, lock, user, chan, wire, dead>>

-----------------------------------------------------------------------------
(* Somebody else who shares the devices: handles -1, -2 *)

XAcq(h, d, k, ok) ==
  /\ ok = (AcqRes(lock[d], h, k) = "ok")
  /\ lock' = IF ok THEN [lock EXCEPT ![d] = Acq(@, h, k)] ELSE lock
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, links, user, chan, wire, dead>>
XRel(h, d, ok) ==
  /\ ok = (RelRes(lock[d], h) # "none")
  /\ lock' = [lock EXCEPT ![d] = Rel(@, h)]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, links, user, chan, wire, dead>>
Hold(d) ==
  /\ user[d] = 0 /\ user' = [user EXCEPT ![d] = -1]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, links, lock, chan, wire, dead>>
Unhold(d) ==
  /\ user[d] = -1 /\ user' = [user EXCEPT ![d] = 0]
  /\ UNCHANGED <<cf, knd, cli, up, q, rep, gr, ab, links, lock, chan, wire, dead>>

-----------------------------------------------------------------------------
Internal(c) ==
  \/ Refused(c) \/ Garbage(c) \/ Ignored(c) \/ Null(c) \/ NoLink(c)
  \/ Create(c) \/ Destroy(c) \/ Lock(c) \/ Unlock(c) \/ Srq(c) \/ Docmd(c)
  \/ IntrCreate(c) \/ IntrDestroy(c) \/ Quick(c) \/ Grant(c) \/ Denied(c)
  \/ LockTimeout(c) \/ AbortHit(c) \/ Abort(c) \/ Getport(c) \/ Dump(c) \/ End(c)

\* May the first call of c stay unanswered as things are?
Blocked(c) ==
  LET m == Hd(c) IN
  /\ q[c] # <<>>
  /\ Status(knd[c], m) = "ok"
  /\ \/ /\ OnLink(c) /\ m.op \in Access \cup {"lock"} /\ m.w
        /\ ~Grantable(c) /\ ab[c] < MaxAb /\ ~gr[c]
     \/ /\ knd[c] = "core" /\ m.op = "create" /\ m.d # 0 /\ m.b
        /\ AcqRes(lock[m.d], 0 - 9, <<>>) = "refused"

\* Everything that can happen has happened, except for connections W which are still waiting for
\* replies because something stands in the way, or has until now
Quiet(W) ==
  /\ \A c \in Conns : cli[c] # "none" =>
       IF up[c] = "up"
       THEN \/ cli[c] = "closed" /\ c \in W
            \/ c \in W /\ (Blocked(c) \/ rep[c] # <<>> \/ gr[c])
            \/ /\ (q[c] # <<>> => Blocked(c))
               /\ (q[c] = <<>> => cli[c] = "open" \/ knd[c] = "pmu")
               /\ (rep[c] = <<>> \/ cli[c] = "gone")
       ELSE cli[c] \in {"gone", "closed"}
  /\ \A i \in DOMAIN links : links[i].due = 0
  /\ \A p \in Chans \ dead : wire[p] = <<>>
  /\ \A d \in Devs : user[d] <= 0 \/ user[d] \in W

-----------------------------------------------------------------------------
(* What must always hold *)
Sane ==
  /\ \A d \in Devs : LockSane(lock[d])
  /\ \A d \in Devs : lock[d].x > 0 => lock[d].x \in DOMAIN links /\ links[lock[d].x].d = d
  /\ \A i \in DOMAIN links : up[links[i].c] = "up"
  /\ \A c \in Conns : gr[c] => OnLink(c) /\ user[DevOf(c)] = c
=============================================================================
