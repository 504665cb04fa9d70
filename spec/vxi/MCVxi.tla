-------------------------------- MODULE MCVxi --------------------------------
(* Small instances of Vxi: every order in which a few calls of a few clients *)
(* can be made, handled and answered, with the properties which speak about  *)
(* histories.  Also generates behaviours to replay against the code.         *)
EXTENDS Vxi, TLC

CONSTANTS
  Cores, Aborts, \* connections which are there from the start
  Linked,        \* core connections which have a link (with their own number) on device 1
  Menu,          \* what a core connection may call: <<op, waits, flag, termination character, size>>
  NC, NA,        \* how many calls on core and abort channels
  Pipe,          \* and how many without waiting for replies
  Envs,          \* other things that may happen
  NE,            \* how often
  Resps          \* responses of the device

VARIABLES nc, ne, h, lab
mvars == <<vars, nc, ne, h, lab>>

None == {}
Ids == Linked \cup (IF \E m \in Menu : m[1] = "create" THEN {10 * c + k : c \in Cores, k \in 1..NC} ELSE {})
NewId(c) == 10 * c + nc[c] + 1

MInit ==
  /\ cf = [ap |-> 5, pm |-> <<>>]
  /\ knd = [c \in Conns |-> IF c \in Aborts THEN "abort" ELSE "core"]
  /\ cli = [c \in Conns |-> "open"] /\ up = [c \in Conns |-> "up"]
  /\ q = [c \in Conns |-> <<>>] /\ rep = [c \in Conns |-> <<>>]
  /\ gr = [c \in Conns |-> FALSE] /\ ab = [c \in Conns |-> 0]
  /\ links = [l \in Linked |-> NewLink(l, 1)]
  /\ lock = [d \in Devs |-> FreeLock] /\ user = [d \in Devs |-> 0]
  /\ chan = [c \in Conns |-> <<>>] /\ wire = [p \in Chans |-> <<>>] /\ dead = {}
  /\ nc = [c \in Conns |-> 0] /\ ne = 0
  /\ h = [acc |-> [l \in Ids |-> <<>>],   \* bytes accepted,
          ran |-> [l \in Ids |-> <<>>],   \* executed,
          made |-> [l \in Ids |-> <<>>],  \* put out by the device
          got |-> [l \in Ids |-> <<>>],   \* and read
          rx |-> [c \in Conns |-> <<>>],  \* replies seen
          hit |-> [c \in Conns |-> FALSE], \* an abort came since the last reply
          ev |-> [l \in Ids |-> 0],       \* events since service requests were asked for
          ir |-> [l \in Ids |-> 0],       \* interrupts sent for them
          st |-> 0]                       \* status last read from the device
  /\ lab = <<>>

Msg(c, op, lid, w, b, tc, n) ==
  [x |-> nc[c] + 1, rv |-> 2, cr |-> 0, ve |-> 0, pg |-> Prog(knd[c]), vs |-> 1,
   pr |-> IF op \in {"abort"} THEN 1 ELSE IF op = "null" THEN 0 ELSE 10,
   op |-> op, lid |-> lid, w |-> w, e |-> b, tc |-> tc, n |-> n,
   data |-> IF op = "write" THEN <<10 * c + nc[c] + 1>> ELSE <<>>,
   b |-> b, h |-> <<lid>>, d |-> IF op = "create" THEN 1 ELSE 0, nl |-> IF op = "create" THEN NewId(c) ELSE 0,
   p |-> IF op = "ichan" THEN 1 ELSE 0, ipg |-> 3, ipv |-> 1]

\* Identifiers a client may use: those given out, and one which was not
Given == {l \in Ids : \E c \in Conns : (l = c /\ c \in Linked) \/ (\E k \in 1..nc[c] : l = 10 * c + k)}
Lids(op) == IF op \in {"create", "ichan", "dchan", "null", "bad"} THEN {0} ELSE Given

SendCall(c) ==
  /\ up[c] = "up" /\ cli[c] = "open" /\ Len(q[c]) < Pipe
  /\ \/ /\ c \in Cores /\ nc[c] < NC
        /\ \E m \in Menu : \E l \in Lids(m[1]) :
             /\ Call(c, Msg(c, m[1], l, m[2], m[3], m[4], m[5]))
             /\ lab' = <<"call", c, m[1], l, m[2], m[3], m[4], m[5]>>
     \/ /\ c \in Aborts /\ nc[c] < NA
        /\ \E l \in Given : Call(c, Msg(c, "abort", l, FALSE, FALSE, -1, 0)) /\ lab' = <<"call", c, "abort", l, FALSE, FALSE, -1, 0>>
  /\ nc' = [nc EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<ne, h>>

Env ==
  /\ ne < NE
  /\ \/ "hold" \in Envs /\ \/ Hold(1) /\ lab' = <<"hold", 1>>
                           \/ Unhold(1) /\ lab' = <<"unhold", 1>>
     \/ "ext" \in Envs /\ \/ \E k \in {<<>>, <<107>>} : XAcq(-1, 1, k, AcqRes(lock[1], -1, k) = "ok") /\ lab' = <<"xacq", 1, k>>
                          \/ XRel(-1, 1, RelRes(lock[1], -1) # "none") /\ lab' = <<"xrel", 1>>
     \/ "gone" \in Envs /\ \E c \in Cores : Gone(c) /\ lab' = <<"gone", c>>
     \/ "shut" \in Envs /\ \E c \in Cores : Shut(c) /\ lab' = <<"shut", c>>
     \/ "pub" \in Envs /\ Publish /\ lab' = <<"pub">>
     \/ "peer" \in Envs /\ dead = {} /\ PeerGone(1) /\ lab' = <<"pgone", 1>>
  /\ ne' = ne + 1
  /\ h' = IF lab'[1] = "pub" THEN [h EXCEPT !.ev = [l \in Ids |-> IF l \in Asked THEN @[l] + 1 ELSE @[l]]] ELSE h
  /\ UNCHANGED nc

\* What a step of the server adds to the history
New(c) == IF Len(rep'[c]) > Len(rep[c]) THEN <<rep'[c][Len(rep'[c])]>> ELSE <<>>
Upd ==
  LET S == {c \in Conns : New(c) # <<>>}
      Of(l, op) == {c \in S : Hd(c).lid = l /\ Hd(c).op = op /\ Status(knd[c], Hd(c)) = "ok" /\ New(c)[1].err = 0 /\ Mine(c, l)}
      One(T) == CHOOSE c \in T : TRUE
  IN [h EXCEPT
      !.acc = [l \in Ids |-> IF Of(l, "write") # {} THEN @[l] \o Hd(One(Of(l, "write"))).data
                             ELSE IF Of(l, "clear") # {} THEN h.ran[l] ELSE @[l]],
      !.made = [l \in Ids |-> IF Of(l, "clear") # {} THEN h.got[l] ELSE @[l]],
      !.got = [l \in Ids |-> IF Of(l, "read") # {} THEN @[l] \o New(One(Of(l, "read")))[1].data ELSE @[l]],
      !.hit = [c \in Conns |-> IF c \in S THEN FALSE
                               ELSE h.hit[c] \/ \E a \in S : Hd(a).op = "abort" /\ New(a)[1].err = 0 /\ Mine(c, Hd(a).lid) /\ Waiting(c, Hd(a).lid)],
      !.ev = [l \in Ids |-> IF Of(l, "srq") # {} THEN 0 ELSE @[l]],
      !.ir = [l \in Ids |-> IF Of(l, "srq") # {} THEN 0 ELSE @[l]]]

Device ==
  \/ \E r \in Resps :
       /\ Used(1, "write")
       /\ LET c == user[1]  l == Hd(c).lid  b == links[l].in \o Hd(c).data IN
          /\ Exec(1, b, r)
          /\ h' = [Upd EXCEPT !.ran[l] = @ \o b, !.made[l] = @ \o r]
  \/ \E e \in {0, 2} : Trig(1, e) /\ h' = Upd
  \/ \E e \in {0, 2} : Clear(1, e) /\ h' = IF e # 0 /\ links' # links
                                           THEN LET l == Hd(user[1]).lid IN [Upd EXCEPT !.acc[l] = h.ran[l], !.made[l] = h.got[l]]
                                           ELSE Upd
  \/ \E on \in {TRUE, FALSE} : Remote(1, on, 0) /\ h' = Upd
  \/ \E s \in {0, 16, 255} : Stb(1, s, 0) /\ h' = [Upd EXCEPT !.st = s]

Server ==
  /\ lab' = <<>> /\ UNCHANGED <<nc, ne>>
  /\ \/ (\E c \in Conns : Internal(c)) /\ h' = Upd
     \/ Device
     \/ \E l \in DOMAIN links : Notify(l) /\ h' = [h EXCEPT !.ir[l] = @ + IF wire' # wire THEN 1 ELSE 0]

Client ==
  /\ lab' = <<>> /\ UNCHANGED <<nc, ne>>
  /\ \/ \E c \in Conns :
          /\ rep[c] # <<>>
          /\ LET r == Head(rep[c]) IN
             Reply(c, [x |-> r.x, st |-> r.st, err |-> IF r.err = AnyErr THEN 1 ELSE r.err, v |-> r.v, data |-> r.data,
                       early |-> FALSE, ap |-> cf.ap, lo |-> r.lo, hi |-> r.lo])
          /\ h' = [h EXCEPT !.rx[c] = Append(@, Head(rep[c]).x)]
     \/ \E c \in Conns : Eof(c) /\ UNCHANGED h
     \/ \E p \in Chans \ dead : wire[p] # <<>> /\ Intr(p, Head(wire[p]).pg, Head(wire[p]).pv, Head(wire[p]).h) /\ UNCHANGED h

LNext == (\E c \in Conns : SendCall(c)) \/ Env \/ Server \/ Client
LSpec == MInit /\ [][LNext]_mvars
\* Replies are read as soon as they are there
MNext ==
  IF \E c \in Conns : rep[c] # <<>> /\ cli[c] \in {"open", "shut"} THEN Client
  ELSE LNext
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
Rp(c) == New(c)[1]
Owned(c, l) == l \in DOMAIN links /\ links[l].c = c
Handles(c) == New(c) # <<>>

\* C21: replies in the order of the calls, one each
Replies == \A c \in Conns :
  /\ \A i \in DOMAIN h.rx[c] : h.rx[c][i] = i
  /\ up[c] = "up" => Len(h.rx[c]) + Len(rep[c]) + Len(q[c]) = nc[c]
  /\ Len(h.rx[c]) + Len(rep[c]) <= nc[c]

\* C15: a link is an identifier nobody else has, and answers only its connection
LinkTruth == [][\A c \in Conns : (Handles(c) /\ Hd(c).op \in LinkOps /\ ~Owned(c, Hd(c).lid))
     => Rp(c).err # 0 /\ links' = links /\ lock' = lock]_mvars
NewIsNew == [][\A l \in DOMAIN links' \ DOMAIN links : \E c \in Conns :
     /\ Handles(c) /\ Hd(c).op = "create" /\ Rp(c).err = 0 /\ Rp(c).v = l /\ links'[l].c = c
     /\ Hd(c).b => lock'[1].x = l]_mvars
NoLinkNoLock == [][\A c \in Conns : (Handles(c) /\ Hd(c).op = "create" /\ Rp(c).err # 0) => links' = links /\ lock' = lock]_mvars
GoneForGood == [][\A l \in DOMAIN links \ DOMAIN links' : lock'[1].x # l /\ h' = Upd]_mvars

\* C16
OnlyEntitled == [][\A d \in Devs : (user[d] = 0 /\ user'[d] > 0) => CanUse(lock[d], Hd(user'[d]).lid)]_mvars
LockTruth == [][\A c \in Conns : (Handles(c) /\ Hd(c).op = "lock" /\ Owned(c, Hd(c).lid)) =>
     LET L == lock[1]  R == lock'[1]  l == Hd(c).lid IN
     CASE Rp(c).err = 0 -> CanUse(L, l) /\ L.x = 0 /\ R.x = l
       [] Rp(c).err = ErrLocked -> L.x \notin {0, l} \/ ~CanUse(L, l)
       [] Rp(c).err = ErrNoLock -> L.x = l /\ R = L
       [] Rp(c).err = ErrAbort -> R = L
       [] OTHER -> FALSE]_mvars
OthersKeep == [][\A l \in Ids : (lock[1].x = l /\ lock'[1].x # l) =>
     \E c \in Conns : l \in DOMAIN links /\ links[l].c = c /\ (up'[c] # up[c] \/ (Handles(c) /\ Hd(c).op \in {"unlock", "destroy"} /\ Hd(c).lid = l))]_mvars
FailsIdle == [][\A c \in Conns : (Handles(c) /\ Rp(c).err # 0 /\ Hd(c).op # "clear") => links' = links /\ lock' = lock]_mvars
DeniedTruly == [][\A c \in Conns : (Handles(c) /\ Rp(c).err = ErrLocked /\ Hd(c).op \in Access /\ ~Hd(c).w) => ~CanUse(lock[1], Hd(c).lid)]_mvars

\* C17: nothing lost, nothing twice, nothing out of order
BytesOnce == \A l \in DOMAIN links : h.acc[l] = h.ran[l] \o links[l].in /\ h.made[l] = h.got[l] \o links[l].out
\* C17: the reasons
Reasons == [][\A c \in Conns : (Handles(c) /\ Hd(c).op = "read" /\ Rp(c).err = 0) =>
     LET m == Hd(c)  s == links[m.lid].out  n == Len(Rp(c).data)  v == Rp(c).v IN
     /\ n <= m.n /\ n <= Len(s) /\ Rp(c).data = SubSeq(s, 1, n)
     /\ (v % 2 = 1) = (n = m.n)
     /\ ((v \div 2) % 2 = 1) = (m.tc >= 0 /\ n > 0 /\ s[n] = m.tc)
     /\ ((v \div 4) % 2 = 1) = (n = Len(s))
     /\ v # 0
     /\ m.tc >= 0 => \A i \in 1..(n - 1) : s[i] # m.tc]_mvars

\* C18
AbortOnly == [][\A c \in Conns : (Handles(c) /\ Rp(c).err = ErrAbort) => h.hit[c]]_mvars
AbortHere == [][\A a \in Conns : (Handles(a) /\ Hd(a).op = "abort") =>
     (Rp(a).err = 0) = (Hd(a).lid \in DOMAIN links) /\ links' = links /\ \A c \in Conns : ab'[c] # ab[c] => Owned(c, Hd(a).lid) \/ c = a]_mvars

\* C19
StatusTruth == [][\A c \in Conns : (Handles(c) /\ Hd(c).op = "stb" /\ Rp(c).err = 0) =>
     /\ (Rp(c).v \div 16) % 2 = (IF links[Hd(c).lid].out # <<>> THEN 1 ELSE 0)
     /\ Rp(c).v % 16 = h'.st % 16 /\ Rp(c).v \div 32 = h'.st \div 32]_mvars

\* C20
OnlyAsked == [][\A p \in Chans : Len(wire'[p]) > Len(wire[p]) => \E l \in DOMAIN links :
     /\ links[l].srq # <<>> /\ chan[links[l].c] # <<>> /\ wire'[p][Len(wire'[p])].h = links[l].srq[1]]_mvars
NotTooMany == \A l \in DOMAIN links : h.ir[l] <= h.ev[l]

\* Everything that can happen has happened
DevStep == \E r \in Resps : Used(1, "write") \/ Used(1, "trig") \/ Used(1, "clear") \/ Used(1, "rem") \/ Used(1, "loc") \/ Used(1, "stb")
Stuck == /\ ~(\E c \in Conns : ENABLED Internal(c)) /\ ~DevStep
         /\ ~(\E l \in DOMAIN links : links[l].due > 0)
         /\ \A c \in Conns : cli[c] \in {"open", "shut"} => rep[c] = <<>> /\ ~ENABLED Eof(c)
         /\ \A p \in Chans \ dead : wire[p] = <<>>
RestIsQuiet == Stuck => Quiet({})
FreeIsDone == (Stuck /\ \A d \in Devs : lock[d] = FreeLock /\ user[d] = 0) => \A c \in Conns : q[c] = <<>>

-----------------------------------------------------------------------------
(* Mutants: each must violate a property above *)
UsableAlways(c) == user[DevOf(c)] = 0
FinSticky(c, r) ==
  /\ q' = [q EXCEPT ![c] = Tail(@)] /\ rep' = [rep EXCEPT ![c] = Append(@, r)]
  /\ UNCHANGED ab
DestroyKeeps(c) ==
  /\ OnLink(c) /\ Hd(c).op = "destroy"
  /\ links' = Drop(links, {Hd(c).lid})
  /\ Simple(c, 0, 0, <<>>)
  /\ UNCHANGED <<chan, wire, dead, lock>>
QuickTwice(c) ==
  /\ OnLink(c) /\ Usable(c)
  /\ LET m == Hd(c)  k == links[m.lid] IN
     \/ /\ m.op = "write" /\ ~m.e
        /\ links' = [links EXCEPT ![m.lid].in = @ \o m.data]
        /\ Fin(c, Res(m, 0, Len(m.data), <<>>, k.d))
     \/ /\ m.op = "read"
        /\ Fin(c, Res(m, 0, ReadWhy(k.out, m), SubSeq(k.out, 1, ReadLen(k.out, m)), k.d))
        /\ UNCHANGED links
  /\ UNCHANGED <<cf, knd, cli, up, gr, lock, user, chan, wire, dead>>
MineAny(c, lid) == lid \in DOMAIN links
NotifyAlways(lid) ==
  /\ lid \in DOMAIN links /\ links[lid].due > 0
  /\ LET ch == chan[links[lid].c] IN
     wire' = IF ch = <<>> THEN wire
             ELSE [wire EXCEPT ![ch[1].p] = Append(@, [pg |-> ch[1].pg, pv |-> ch[1].pv, h |-> links[lid].srq[1]])]
  /\ UNCHANGED <<cf, links, knd, cli, up, q, rep, gr, ab, lock, user, chan, dead>>
MavOr(s, on) == (s \div 32) * 32 + (s % 16) + IF on \/ (s \div 16) % 2 = 1 THEN 16 ELSE 0
GrantNever(c) == FALSE
MaxOne == 1

-----------------------------------------------------------------------------
(* What is called *)
LinkMenu == {<<"create", FALSE, FALSE, -1, 0>>, <<"create", FALSE, TRUE, -1, 0>>, <<"destroy", FALSE, FALSE, -1, 0>>, <<"trig", FALSE, FALSE, -1, 0>>}
LinkMenuQ == LinkMenu \ {<<"trig", FALSE, FALSE, -1, 0>>}
AbortMenuQ == {<<"lock", TRUE, FALSE, -1, 0>>, <<"trig", TRUE, FALSE, -1, 0>>}
LockMenu == {<<"lock", TRUE, FALSE, -1, 0>>, <<"lock", FALSE, FALSE, -1, 0>>, <<"unlock", FALSE, FALSE, -1, 0>>,
             <<"trig", TRUE, FALSE, -1, 0>>, <<"trig", FALSE, FALSE, -1, 0>>}
DataMenu == {<<"write", FALSE, FALSE, -1, 0>>, <<"write", FALSE, TRUE, -1, 0>>, <<"clear", FALSE, FALSE, -1, 0>>,
             <<"read", FALSE, FALSE, -1, 2>>, <<"read", FALSE, FALSE, 8, 9>>}
AbortMenu == {<<"lock", TRUE, FALSE, -1, 0>>, <<"trig", TRUE, FALSE, -1, 0>>, <<"unlock", FALSE, FALSE, -1, 0>>, <<"destroy", FALSE, FALSE, -1, 0>>}
StbMenu == {<<"write", FALSE, TRUE, -1, 0>>, <<"stb", TRUE, FALSE, -1, 0>>, <<"stb", FALSE, FALSE, -1, 0>>, <<"read", FALSE, FALSE, -1, 2>>, <<"loc", FALSE, FALSE, -1, 0>>}
SrqMenu == {<<"srq", FALSE, TRUE, -1, 0>>, <<"srq", FALSE, FALSE, -1, 0>>, <<"ichan", FALSE, FALSE, -1, 0>>, <<"dchan", FALSE, FALSE, -1, 0>>, <<"destroy", FALSE, FALSE, -1, 0>>}
RpcMenu == {<<"null", FALSE, FALSE, -1, 0>>, <<"bad", FALSE, FALSE, -1, 0>>, <<"trig", FALSE, FALSE, -1, 0>>}
TwoResps == {<<>>, <<7, 8, 9>>}
OneResp == {<<9>>}
EExt == {"ext"}
EHX == {"ext", "hold"}
ELeave == {"gone", "shut"}
EPub == {"pub", "peer"}
EGP == {"pub", "gone"}

(* Generated behaviours: what the server says is read at once *)
GSpec == MSpec
GView == <<vars, nc, ne>>
\* Records are printed in an order which is not unique, tuples are not
SM(m) == <<m.x, m.op, m.lid, m.w, m.e, m.tc, m.n, m.nl, m.data>>
SR(r) == <<r.x, r.op, r.st, r.err, r.v, r.data, r.d, r.t>>
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
SL(l) == IF l \in DOMAIN links THEN <<links[l].c, links[l].in, links[l].out, links[l].srq, links[l].due>> ELSE <<>>
SW(w) == w.h
S == <<[c \in Conns |-> <<cli[c], up[c], Map(SM, q[c]), Map(SR, rep[c]), gr[c], ab[c], chan[c] # <<>>, nc[c]>>],
       [l \in Ids |-> SL(l)], lock[1].x, lock[1].key, <<-1 \in lock[1].sh>>, user[1],
       [p \in Chans |-> Map(SW, wire[p])], 1 \in dead, ne>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
