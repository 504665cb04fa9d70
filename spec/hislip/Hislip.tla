------------------------------- MODULE Hislip -------------------------------
(***************************************************************************)
(* A HiSLIP server as its clients and its device see it.                   *)
(*                                                                         *)
(* Every connection is a pair of message queues and a server side task     *)
(* which handles one message after the other.  A session consists of a     *)
(* synchronous connection, which also names it, and at most one            *)
(* asynchronous connection.  Calls of the device and everything a client   *)
(* sees are explicit actions.                                              *)
(*                                                                         *)
(* Messages are [t, c, ph, pl, d, x]: type, control code, the two halves   *)
(* of the parameter, payload, and x = "" for a regular message, "bad" for  *)
(* a wrong prologue, "big" for a payload beyond the server's maximum,      *)
(* "huge" as long as that payload has not been sent completely.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, LockOps

CONSTANTS Conns,      \* connections, 1..n
          Devs,       \* devices, 1..n
          Xs          \* lock handles of other protocols on the same devices, e.g. 101..

VARIABLES
  cf,     \* configuration: [maxs, overlap, idn, vendor, sub]
  st,     \* state of a connection: none init sync async closing closed
  cli,    \* client side: open shut gone
  inq,    \* complete messages the server did not handle yet
  out,    \* what the server owes the client, in order
  ses,    \* session of a connection (number of its synchronous connection), 0 if none
  buf,    \* synchronous: data of the unfinished command
  mode,   \* synchronous: norm, clearing
  wait,   \* asynchronous: pending lock request [k, t] or NoWait
  todo,   \* asynchronous: device calls the current request still has to make
  rep,    \* asynchronous: reply to send once they are made
  srq,    \* status values for the connection
  sid,    \* identifier of a session, -1 while the client does not know it
  sdev,   \* device of a session
  sst,    \* none hand norm
  prot,   \* negotiated protocol of a session
  maxm,   \* maximum message size of the client
  rem,    \* remote enabled
  clr,    \* device clear announced, not yet noticed
  told,   \* service request sent since the last status query
  resp,   \* session produced response data
  lock,   \* lock of a device
  held    \* device in use by somebody else

cvars == <<st, cli, inq, out, ses, buf, mode, wait, todo, rep, srq>>
svars == <<sid, sdev, sst, prot, maxm, rem, clr, told, resp>>
dvars == <<lock, held>>
vars == <<cf, cvars, svars, dvars>>

Inf == 16777216
NoWait == [k |-> <<>>, t |-> "no"]
NoRep == [k |-> "none"]
AnyCode == 0..255

Msg(t, c, ph, pl, d) == [k |-> "m", t |-> t, c |-> c, ph |-> ph, pl |-> pl, d |-> d]
Fatal == Msg(2, AnyCode, 0, 0, <<>>)
Error == Msg(3, AnyCode, 0, 0, <<>>)

Init0 ==
  /\ st = [c \in Conns |-> "none"] /\ cli = [c \in Conns |-> "open"]
  /\ inq = [c \in Conns |-> <<>>] /\ out = [c \in Conns |-> <<>>]
  /\ ses = [c \in Conns |-> 0] /\ buf = [c \in Conns |-> <<>>]
  /\ mode = [c \in Conns |-> "norm"] /\ wait = [c \in Conns |-> NoWait]
  /\ todo = [c \in Conns |-> {}] /\ rep = [c \in Conns |-> NoRep]
  /\ srq = [c \in Conns |-> <<>>]
  /\ sid = [c \in Conns |-> -1] /\ sdev = [c \in Conns |-> 1]
  /\ sst = [c \in Conns |-> "none"] /\ prot = [c \in Conns |-> 0]
  /\ maxm = [c \in Conns |-> 256] /\ rem = [c \in Conns |-> TRUE]
  /\ clr = [c \in Conns |-> FALSE] /\ told = [c \in Conns |-> FALSE]
  /\ resp = [c \in Conns |-> FALSE]
  /\ lock = [d \in Devs |-> FreeLock] /\ held = [d \in Devs |-> FALSE]

-----------------------------------------------------------------------------
(* Helpers *)

Task(c) == st[c] \in {"init", "sync", "async"}
Members(s) == {c \in Conns : ses[c] = s /\ st[c] \in {"sync", "async"}}
Live(s) == Members(s) # {}
LiveSessions == {s \in Conns : Live(s)}
Dev(c) == sdev[ses[c]]
Entitled(c) == CanUse(lock[Dev(c)], ses[c])
Reach(c) == Entitled(c) /\ ~held[Dev(c)]
Head1(c) == inq[c] # <<>>
Bit0(x) == x % 2

Eat(c) == inq' = [inq EXCEPT ![c] = Tail(@)]
Put(c, m) == out' = [out EXCEPT ![c] = Append(@, m)]

\* The server stops serving c; a session without connections gives up its locks
EndTask(c, o) ==
  /\ st' = [st EXCEPT ![c] = "closing"]
  /\ out' = [out EXCEPT ![c] = o]
  /\ inq' = [inq EXCEPT ![c] = <<>>]
  /\ buf' = [buf EXCEPT ![c] = <<>>]
  /\ wait' = [wait EXCEPT ![c] = NoWait]
  /\ todo' = [todo EXCEPT ![c] = {}]
  /\ rep' = [rep EXCEPT ![c] = NoRep]
  /\ lock' = IF ses[c] # 0 /\ Members(ses[c]) \subseteq {c}
             THEN [lock EXCEPT ![Dev(c)] = Rel(@, ses[c])] ELSE lock
  /\ UNCHANGED <<cf, cli, ses, mode, srq, svars, held>>

Refuse(c) == EndTask(c, Append(out[c], Fatal))

\* Handle the message at the head without further effect, answering with o (a sequence)
Answer(c, o) ==
  /\ Eat(c)
  /\ out' = [out EXCEPT ![c] = @ \o o]
  /\ UNCHANGED <<cf, st, cli, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

-----------------------------------------------------------------------------
(* Clients *)

Connect(c) ==
  /\ st[c] = "none"
  /\ st' = [st EXCEPT ![c] = "init"]
  /\ UNCHANGED <<cf, cli, inq, out, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

Send(c, m) ==
  /\ cli[c] = "open" /\ st[c] # "none"
  /\ inq' = IF Task(c) THEN [inq EXCEPT ![c] = Append(@, m)] ELSE inq
  /\ UNCHANGED <<cf, st, cli, out, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

\* The payload of the over-long message is complete
Full(c) ==
  /\ inq' = [inq EXCEPT ![c] = [i \in DOMAIN @ |-> IF @[i].x = "huge" THEN [@[i] EXCEPT !.x = "big"] ELSE @[i]]]
  /\ UNCHANGED <<cf, st, cli, out, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

\* No more messages, but still reading
Shut(c) ==
  /\ cli[c] = "open" /\ st[c] # "none"
  /\ cli' = [cli EXCEPT ![c] = "shut"]
  /\ UNCHANGED <<cf, st, inq, out, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

\* Connection closed
Gone(c) ==
  /\ cli[c] # "gone" /\ st[c] # "none"
  /\ cli' = [cli EXCEPT ![c] = "gone"]
  /\ UNCHANGED <<cf, st, inq, out, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

\* Bytes bs start with the non-empty p
Starts(bs, p) == Len(p) > 0 /\ Len(p) <= Len(bs) /\ SubSeq(bs, 1, Len(p)) = p

\* The client reads message e
Recv(c, e) ==
  /\ cli[c] # "gone" /\ out[c] # <<>>
  /\ LET h == Head(out[c]) IN
     CASE h.k = "m" ->
            /\ e.t = h.t /\ e.c \in h.c /\ e.ph = h.ph /\ e.pl = h.pl /\ e.d = h.d
            /\ out' = [out EXCEPT ![c] = Tail(@)]
            /\ UNCHANGED sid
       [] h.k = "i" ->  \* InitializeResponse, the identifier is the server's choice
            /\ e.t = 1 /\ e.c \in h.c /\ e.ph = h.ph /\ e.d = <<>>
            /\ sid[c] \in {-1, e.pl}
            /\ Live(c) => \A s \in LiveSessions \ {c} : sid[s] # e.pl
            /\ sid' = [sid EXCEPT ![c] = e.pl]
            /\ out' = [out EXCEPT ![c] = Tail(@)]
       [] h.k = "r" ->  \* a piece of a response
            /\ Starts(h.d, e.d) /\ Len(e.d) <= h.max
            /\ e.ph = h.ph /\ e.pl = h.pl /\ e.c = 0
            /\ LET rest == SubSeq(h.d, Len(e.d) + 1, Len(h.d)) IN
               /\ e.t = IF rest = <<>> THEN 7 ELSE 6
               /\ out' = [out EXCEPT ![c] =
                            IF rest = <<>> THEN Tail(@) ELSE <<[h EXCEPT !.d = rest]>> \o Tail(@)]
            /\ UNCHANGED sid
       [] OTHER -> FALSE
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, wait, todo, rep, srq,
                 sdev, sst, prot, maxm, rem, clr, told, resp, dvars>>

\* The server closed its side (after everything it had to say)
Eof(c) ==
  /\ st[c] = "closing"
  /\ out[c] = <<>> \/ cli[c] = "gone"
  /\ st' = [st EXCEPT ![c] = "closed"]
  /\ out' = [out EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<cf, cli, inq, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

\* Status value published.  There is room for two values per connection, any further one may be
\* lost, and so may values for a client which has been notified and did not query the status since.
Publish(v) ==
  /\ srq' = [c \in Conns |->
               IF Task(c) /\ st[c] # "sync"
               THEN Append(srq[c], [v |-> v, must |-> Len(srq[c]) < 2 /\ (st[c] = "init" \/ ~told[ses[c]])])
               ELSE srq[c]]
  /\ UNCHANGED <<cf, st, cli, inq, out, ses, buf, mode, wait, todo, rep, svars, dvars>>

\* Other users of the device and its lock
Hold(d) == held[d] = FALSE /\ held' = [held EXCEPT ![d] = TRUE] /\ UNCHANGED <<cf, cvars, svars, lock>>
Unhold(d) == held[d] /\ held' = [held EXCEPT ![d] = FALSE] /\ UNCHANGED <<cf, cvars, svars, lock>>
XAcq(x, d, k, r) ==
  /\ r = AcqRes(lock[d], x, k)
  /\ lock' = IF r = "ok" THEN [lock EXCEPT ![d] = Acq(@, x, k)] ELSE lock
  /\ UNCHANGED <<cf, cvars, svars, held>>
XRel(x, d, r) ==
  /\ r = RelRes(lock[d], x)
  /\ lock' = [lock EXCEPT ![d] = Rel(@, x)]
  /\ UNCHANGED <<cf, cvars, svars, held>>

-----------------------------------------------------------------------------
(* Server: end of a connection *)

\* Everything handled and the client will not send more
Finish(c) ==
  /\ Task(c) /\ cli[c] # "open" /\ inq[c] = <<>>
  /\ wait[c] = NoWait /\ todo[c] = {}
  /\ EndTask(c, out[c])

\* Nobody is reading any more: the server may notice at any time
Die(c) ==
  /\ Task(c) /\ cli[c] = "gone"
  /\ EndTask(c, <<>>)

\* The payload of an over-long message ended early
Trunc(c) ==
  /\ Task(c) /\ cli[c] # "open" /\ wait[c] = NoWait /\ todo[c] = {}
  /\ Len(inq[c]) = 1 /\ Head(inq[c]).x \in {"big", "huge"}
  /\ EndTask(c, out[c])

-----------------------------------------------------------------------------
(* Server: messages which are handled alike on every kind of connection *)

Known(t) == t <= 38 \/ t >= 128
Tls == {28, 31, 34, 36, 37}

Skip(m) == m.x = "" /\ m.t \in {2, 3}                      \* error reports of the client
BadHeader(m) == m.x = "bad"
NonFatal(m) == m.x \in {"big", "huge"} \/ (m.x = "" /\ (~Known(m.t) \/ m.t >= 128))
Common(c, m) ==
  \/ Skip(m) /\ Answer(c, <<>>)
  \/ BadHeader(m) /\ Refuse(c)
  \/ NonFatal(m) /\ Answer(c, <<Error>>)

-----------------------------------------------------------------------------
(* Server: connections which are not initialised yet *)

SubAddr(d) == IF d = <<>> THEN cf.def ELSE d
HasDev(d) == \E i \in DOMAIN cf.sub : cf.sub[i] = SubAddr(d)
DevOf(d) == CHOOSE i \in DOMAIN cf.sub : cf.sub[i] = SubAddr(d)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

InitSync(c, m) ==
  IF ~HasDev(m.d) \/ Cardinality(LiveSessions) >= cf.maxs THEN Refuse(c)
  ELSE /\ Eat(c)
       /\ st' = [st EXCEPT ![c] = "sync"]
       /\ ses' = [ses EXCEPT ![c] = c]
       /\ sdev' = [sdev EXCEPT ![c] = DevOf(m.d)]
       /\ sst' = [sst EXCEPT ![c] = "hand"]
       /\ prot' = [prot EXCEPT ![c] = Min(512, m.ph)]
       /\ Put(c, [k |-> "i", c |-> {cf.overlap}, ph |-> Min(512, m.ph)])
       /\ srq' = [srq EXCEPT ![c] = <<>>]
       /\ UNCHANGED <<cf, cli, buf, mode, wait, todo, rep, sid, maxm, rem, clr, told, resp, dvars>>

Attach(c, m, s) ==
  /\ Eat(c)
  /\ st' = [st EXCEPT ![c] = "async"]
  /\ ses' = [ses EXCEPT ![c] = s]
  /\ sst' = [sst EXCEPT ![s] = "norm"]
  /\ sid' = [sid EXCEPT ![s] = m.pl]
  /\ Put(c, Msg(18, {0}, 0, cf.vendor, <<>>))
  /\ UNCHANGED <<cf, cli, buf, mode, wait, todo, rep, srq, sdev, prot, maxm, rem, clr, told, resp, dvars>>

\* A client may also guess the identifier of a session which nobody was told yet
InitAsync(c, m) ==
  IF \E s \in LiveSessions : sid[s] = m.pl /\ sst[s] = "hand"
  THEN \E s \in LiveSessions : sid[s] = m.pl /\ sst[s] = "hand" /\ Attach(c, m, s)
  ELSE \/ Refuse(c)
       \/ \E s \in Conns \ LiveSessions :      \* just being refused itself
            /\ st[s] = "closing" /\ ses[s] = s /\ sid[s] = m.pl /\ sst[s] = "hand"
            /\ Cardinality(LiveSessions) < cf.maxs
            /\ Attach(c, m, s)
       \/ /\ \A s \in LiveSessions : sid[s] # m.pl
          /\ \E s \in LiveSessions : sid[s] = -1 /\ sst[s] = "hand" /\ Attach(c, m, s)

ProcInit(c) ==
  /\ st[c] = "init" /\ Head1(c)
  /\ LET m == Head(inq[c]) IN
     \/ Common(c, m)
     \/ m.x = "" /\ m.t = 0 /\ InitSync(c, m)
     \/ m.x = "" /\ m.t = 17 /\ InitAsync(c, m)
     \/ m.x = "" /\ Known(m.t) /\ m.t < 128 /\ m.t \notin {0, 2, 3, 17} /\ Refuse(c)

-----------------------------------------------------------------------------
(* Server: synchronous channel *)

\* A device clear is noticed
Enter(c) ==
  /\ st[c] = "sync" /\ clr[c] /\ mode[c] = "norm"
  /\ clr' = [clr EXCEPT ![c] = FALSE]
  /\ mode' = [mode EXCEPT ![c] = "clearing"]
  /\ buf' = [buf EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<cf, st, cli, inq, out, ses, wait, todo, rep, srq, sid, sdev, sst, prot, maxm, rem, told, resp, dvars>>

ClearDone(c, m) ==
  /\ Eat(c)
  /\ mode' = [mode EXCEPT ![c] = "norm"]
  /\ Put(c, Msg(9, {Bit0(m.c)}, 0, 0, <<>>))
  /\ UNCHANGED <<cf, st, cli, ses, buf, wait, todo, rep, srq, svars, dvars>>

\* Everything up to the clear-complete message is dropped
ProcClearing(c) ==
  /\ st[c] = "sync" /\ mode[c] = "clearing" /\ Head1(c)
  /\ LET m == Head(inq[c]) IN
     \/ BadHeader(m) /\ Refuse(c)
     \/ (m.x \in {"big", "huge"} \/ (m.x = "" /\ ~Known(m.t))) /\ Answer(c, <<Error>>)
     \/ m.x = "" /\ Known(m.t) /\ m.t # 8 /\ Answer(c, <<>>)
     \/ m.x = "" /\ m.t = 8 /\ ~Entitled(c) /\ ClearDone(c, m)

\* The device is told if this client may use it
DevClear(c) ==
  /\ st[c] = "sync" /\ mode[c] = "clearing" /\ Head1(c)
  /\ LET m == Head(inq[c]) IN
     m.x = "" /\ m.t = 8 /\ Reach(c) /\ ClearDone(c, m)

IsData(m) == m.x = "" /\ m.t \in {6, 7}
Lower(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
IsIdn(d) == [i \in DOMAIN d |-> Lower(d[i])] = <<42, 105, 100, 110, 63>>
Shorted(c, d) == cf.idn # <<>> /\ IsIdn(d)
Ready(c) == st[c] = "sync" /\ mode[c] = "norm" /\ ~clr[c] /\ Head1(c)

Respond(c, m, r) ==
  /\ Eat(c)
  /\ buf' = [buf EXCEPT ![c] = <<>>]
  /\ out' = IF r = <<>> THEN out
            ELSE [out EXCEPT ![c] = Append(@, [k |-> "r", d |-> r, ph |-> m.ph, pl |-> m.pl,
                                               max |-> maxm[c], cut |-> FALSE])]
  /\ resp' = [resp EXCEPT ![c] = @ \/ r # <<>>]
  /\ UNCHANGED <<cf, st, cli, ses, mode, wait, todo, rep, srq, sid, sdev, sst, prot, maxm, rem, clr, told, dvars>>

\* Messages without a call of the device
ProcSync(c) ==
  /\ Ready(c)
  /\ LET m == Head(inq[c]) IN
     \/ Common(c, m)
     \/ (IsData(m) \/ (m.x = "" /\ m.t = 12)) /\ sst[c] = "hand" /\ Refuse(c)
     \/ /\ m.x = "" /\ m.t = 6 /\ sst[c] = "norm"
        /\ Eat(c)
        /\ buf' = [buf EXCEPT ![c] = @ \o m.d]
        /\ UNCHANGED <<cf, st, cli, out, ses, mode, wait, todo, rep, srq, svars, dvars>>
     \/ /\ m.x = "" /\ m.t = 7 /\ sst[c] = "norm" /\ Shorted(c, buf[c] \o m.d) /\ Entitled(c)
        /\ Respond(c, m, cf.idn)
     \/ m.x = "" /\ m.t = 26 /\ Answer(c, <<>>)
     \/ m.x = "" /\ m.t \in Tls /\ prot[c] >= 512 /\ Refuse(c)
     \/ /\ m.x = "" /\ Known(m.t) /\ m.t < 128 /\ m.t \notin {2, 3, 6, 7, 12, 26}
        /\ m.t \in Tls => prot[c] < 512
        /\ Answer(c, <<Error>>)

\* The device executes a command and responds r
Exec(c, cmd, r) ==
  /\ Ready(c) /\ sst[c] = "norm" /\ Reach(c)
  /\ LET m == Head(inq[c]) IN
     /\ m.x = "" /\ m.t = 7
     /\ cmd = buf[c] \o m.d /\ ~Shorted(c, cmd)
     /\ Respond(c, m, r)

DevTrigger(c) ==
  /\ Ready(c) /\ sst[c] = "norm" /\ Reach(c)
  /\ LET m == Head(inq[c]) IN m.x = "" /\ m.t = 12 /\ Answer(c, <<>>)

\* A response during which a clear was announced may stop at a message boundary
Cut(c) ==
  /\ out[c] # <<>> /\ Head(out[c]).k = "r" /\ Head(out[c]).cut
  /\ out' = [out EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, wait, todo, rep, srq, svars, dvars>>

-----------------------------------------------------------------------------
(* Server: asynchronous channel *)

Idle(c) == st[c] = "async" /\ wait[c] = NoWait /\ todo[c] = {}
AReady(c) == Idle(c) /\ Head1(c)

\* Trailing NULs do not count (clients which send C strings)
RECURSIVE LockStr(_)
LockStr(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN LockStr(SubSeq(d, 1, Len(d) - 1)) ELSE d
Number(d) == IF \E i \in 1..5 : d[i] # 0 THEN Inf ELSE d[6] * 65536 + d[7] * 256 + d[8]
TimeClass(m) == IF m.ph = 0 /\ m.pl = 0 THEN "now" ELSE IF m.ph = 0 /\ m.pl < 1000 THEN "short" ELSE "long"

LockReply(c, codes) == Msg(5, codes, 0, 0, <<>>)

ProcLock(c, m) ==
  LET s == ses[c]  d == Dev(c)  k == LockStr(m.d) IN
  IF m.c = 0
  THEN \* release
       /\ Eat(c)
       /\ Put(c, LockReply(c, {CASE RelRes(lock[d], s) = "excl" -> 1
                                 [] RelRes(lock[d], s) = "shared" -> 2
                                 [] OTHER -> 3}))
       /\ lock' = [lock EXCEPT ![d] = Rel(@, s)]
       /\ UNCHANGED <<cf, st, cli, ses, buf, mode, wait, todo, rep, srq, svars, held>>
  ELSE IF m.x = "" /\ m.u = FALSE THEN Answer(c, <<LockReply(c, {2})>>)
  ELSE LET r == AcqRes(lock[d], s, k) IN
       /\ Eat(c)
       /\ lock' = IF r = "ok" THEN [lock EXCEPT ![d] = Acq(@, s, k)] ELSE lock
       /\ IF r = "refused" /\ TimeClass(m) # "now"
          THEN wait' = [wait EXCEPT ![c] = [k |-> k, t |-> TimeClass(m)]] /\ UNCHANGED out
          ELSE /\ Put(c, LockReply(c, IF r = "ok" THEN {1} ELSE IF r = "already" THEN {2} ELSE {0, 2}))
               /\ UNCHANGED wait
       /\ UNCHANGED <<cf, st, cli, ses, buf, mode, todo, rep, srq, svars, held>>

\* A waiting lock request is decided
Grant(c) ==
  /\ st[c] = "async" /\ wait[c] # NoWait
  /\ LET s == ses[c]  d == Dev(c)  r == AcqRes(lock[d], s, wait[c].k) IN
     /\ r # "refused"
     /\ lock' = IF r = "ok" THEN [lock EXCEPT ![d] = Acq(@, s, wait[c].k)] ELSE lock
     /\ Put(c, LockReply(c, {IF r = "ok" THEN 1 ELSE 2}))
  /\ wait' = [wait EXCEPT ![c] = NoWait]
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, todo, rep, srq, svars, held>>

Expire(c) ==
  /\ st[c] = "async" /\ wait[c].t = "short"
  /\ AcqRes(lock[Dev(c)], ses[c], wait[c].k) = "refused"
  /\ Put(c, LockReply(c, {0}))
  /\ wait' = [wait EXCEPT ![c] = NoWait]
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, todo, rep, srq, svars, dvars>>

\* Device calls a remote/local request stands for
Calls(r) ==
  CASE r \in {0, 2} -> {<<"llo", FALSE>>, <<"rem", FALSE>>}
    [] r = 3 -> {<<"rem", TRUE>>}
    [] r = 4 -> {<<"llo", TRUE>>}
    [] r = 5 -> {<<"llo", TRUE>>, <<"rem", TRUE>>}
    [] r = 6 -> {<<"rem", FALSE>>}
    [] OTHER -> {}

ProcRemote(c, m) ==
  IF m.c > 6 THEN Answer(c, <<Error>>)
  ELSE LET s == ses[c] IN
       /\ Eat(c)
       /\ rem' = [rem EXCEPT ![s] = IF m.c \in {0, 2} THEN FALSE ELSE IF m.c = 6 THEN @ ELSE TRUE]
       /\ todo' = [todo EXCEPT ![c] = Calls(m.c)]
       /\ IF Calls(m.c) = {}
          THEN Put(c, Msg(11, {0}, 0, 0, <<>>)) /\ UNCHANGED rep
          ELSE rep' = [rep EXCEPT ![c] = Msg(11, {0}, 0, 0, <<>>)] /\ UNCHANGED out
       /\ UNCHANGED <<cf, st, cli, ses, buf, mode, wait, srq, sid, sdev, sst, prot, maxm, clr, told, resp, dvars>>

ProcStatus(c, m) ==
  /\ Eat(c)
  /\ todo' = [todo EXCEPT ![c] = {<<"stb", FALSE>>} \cup (IF rem[ses[c]] THEN {<<"rem", TRUE>>} ELSE {})]
  /\ rep' = [rep EXCEPT ![c] = [k |-> "stb"]]
  /\ UNCHANGED <<cf, st, cli, out, ses, buf, mode, wait, srq, svars, dvars>>

\* A call of the device on behalf of an asynchronous request.  Remote and local requests wait
\* for access; a status query only waits for the device itself.
\* v: result, 0..255 for the status, 0 success / 1 not supported / 2 other failure for remote
AnyMav(s, v) == {(v % 16) + 32 * (v \div 32)} \cup (IF resp[s] THEN {(v % 16) + 16 + 32 * (v \div 32)} ELSE {})
DevCall(c, op, arg, v) ==
  /\ st[c] = "async" /\ <<op, arg>> \in todo[c]
  /\ ~held[Dev(c)]
  /\ rep[c].k = "m" => Entitled(c)
  /\ todo' = [todo EXCEPT ![c] = @ \ {<<op, arg>>}]
  /\ LET s == ses[c]
         r == IF op = "stb" THEN Msg(22, AnyMav(s, v), 0, 0, <<>>)
              ELSE IF op = "rem" /\ rep[c].k = "m" /\ v # 0 THEN Error
              ELSE rep[c]
     IN IF todo[c] = {<<op, arg>>}
        THEN /\ Put(c, r)
             /\ rep' = [rep EXCEPT ![c] = NoRep]
             /\ told' = IF r.t = 22 THEN [told EXCEPT ![s] = FALSE] ELSE told
        ELSE /\ rep' = [rep EXCEPT ![c] = r]
             /\ UNCHANGED <<out, told>>
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, wait, srq, sid, sdev, sst, prot, maxm, rem, clr, resp, dvars>>

\* Device clear announced: what is being sent may be cut short
ProcClear(c) ==
  LET s == ses[c] IN
  /\ Eat(c)
  /\ clr' = [clr EXCEPT ![s] = Live(s)]
  /\ out' = [x \in Conns |->
       IF x = s THEN [i \in DOMAIN out[s] |-> IF out[s][i].k = "r" THEN [out[s][i] EXCEPT !.cut = TRUE] ELSE out[s][i]]
       ELSE IF x = c THEN Append(out[c], Msg(23, {cf.overlap}, 0, 0, <<>>)) ELSE out[x]]
  /\ UNCHANGED <<cf, st, cli, ses, buf, mode, wait, todo, rep, srq, sid, sdev, sst, prot, maxm, rem, told, resp, dvars>>

ProcMax(c, m) ==
  IF Len(m.d) # 8 THEN Refuse(c)
  ELSE /\ Eat(c)
       /\ maxm' = [maxm EXCEPT ![ses[c]] = Max(1, Number(m.d))]
       /\ Put(c, Msg(16, {0}, 0, 0, cf.maxd))
       /\ UNCHANGED <<cf, st, cli, ses, buf, mode, wait, todo, rep, srq, sid, sdev, sst, prot, rem, clr, told, resp, dvars>>

ProcInfo(c) ==
  Answer(c, <<Msg(25, {IF lock[Dev(c)].x # 0 THEN 1 ELSE 0}, 0, Cardinality(lock[Dev(c)].sh), <<>>)>>)

ProcAsync(c) ==
  /\ AReady(c)
  /\ LET m == Head(inq[c]) IN
     \/ Common(c, m)
     \/ /\ m.x = "" /\ Known(m.t) /\ m.t < 128 /\ m.t \notin {2, 3}
        /\ CASE m.t = 4 -> ProcLock(c, m)
             [] m.t = 10 -> ProcRemote(c, m)
             [] m.t = 15 -> ProcMax(c, m)
             [] m.t = 19 -> ProcClear(c)
             [] m.t = 21 -> ProcStatus(c, m)
             [] m.t = 24 -> ProcInfo(c)
             [] m.t \in {29, 32} /\ prot[ses[c]] >= 512 -> Refuse(c)
             [] OTHER -> Answer(c, <<Error>>)

\* A service request is sent, once until the next status query
Wanted(q) == \E i \in DOMAIN q : q[i].must
SendSrq(c) ==
  /\ Idle(c) /\ ~told[ses[c]]
  /\ \E i \in DOMAIN srq[c] :
       /\ \A j \in 1..i-1 : ~srq[c][j].must
       /\ Put(c, Msg(20, {srq[c][i].v}, 0, 0, <<>>))
       /\ srq' = [srq EXCEPT ![c] = [j \in 1..Len(@)-i |-> [v |-> @[i+j].v, must |-> FALSE]]]
  /\ told' = [told EXCEPT ![ses[c]] = TRUE]
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, wait, todo, rep, sid, sdev, sst, prot, maxm, rem, clr, resp, dvars>>

-----------------------------------------------------------------------------
(* Server steps nobody sees *)
Internal(c) ==
  \/ ProcInit(c) \/ ProcSync(c) \/ ProcAsync(c)
  \/ Enter(c) \/ ProcClearing(c) \/ Cut(c)
  \/ Grant(c) \/ Expire(c) \/ SendSrq(c)
  \/ Finish(c) \/ Trunc(c) \/ Die(c)

Nothing(c) == inq[c] = <<>> \/ (Len(inq[c]) = 1 /\ Head(inq[c]).x = "huge")

\* May the server be at rest as far as c is concerned?
Rest(c, tim) ==
  CASE st[c] \in {"none", "closed"} -> TRUE
    [] st[c] = "closing" -> FALSE
    [] st[c] = "init" -> Nothing(c) /\ out[c] = <<>> /\ cli[c] = "open"
    [] st[c] = "sync" ->
         /\ out[c] = <<>> \/ cli[c] = "gone"
         /\ IF Nothing(c) THEN cli[c] = "open"
            ELSE IF mode[c] = "clearing"
            THEN \* the device is in use by somebody else
                 held[Dev(c)] /\ Head(inq[c]).x = "" /\ Head(inq[c]).t = 8
            ELSE ~clr[c] /\ ~Reach(c)
    [] st[c] = "async" ->
         /\ out[c] = <<>> \/ cli[c] = "gone"
         /\ IF wait[c] # NoWait
            THEN (wait[c].t = "long" \/ c \in tim \/ cli[c] = "gone") /\ AcqRes(lock[Dev(c)], ses[c], wait[c].k) = "refused"
            ELSE IF todo[c] # {} THEN held[Dev(c)] \/ (rep[c].k = "m" /\ ~Entitled(c))
            ELSE /\ Nothing(c) /\ cli[c] = "open"
                 /\ told[ses[c]] \/ ~Wanted(srq[c])

\* slow: connections whose client does not read at the moment
\* tim: connections with a timeout that is still running
Quiet(slow, tim) == \A c \in Conns : c \in slow \/ Rest(c, tim)

-----------------------------------------------------------------------------
(* Properties of the state; properties of the actions are in MCHislip *)
LocksSane == \A d \in Devs : LockSane(lock[d])
\* C07: identifiers of live sessions are different, limit respected, one asynchronous channel
UniqueIds == \A a, b \in LiveSessions : a # b /\ sid[a] # -1 => sid[a] # sid[b]
LimitHolds == Cardinality(LiveSessions) <= cf.maxs
OneAsync == \A s \in Conns : Cardinality({c \in Conns : st[c] = "async" /\ ses[c] = s}) <= 1
\* C04, C07: only live sessions hold locks
LocksOfLive == \A d \in Devs : \A h \in ({lock[d].x} \cup lock[d].sh) \ ({0} \cup Xs) :
                  Live(h) /\ sdev[h] = d
=============================================================================
