------------------------------ MODULE MCHislip ------------------------------
(* Small instances of Hislip: every order in which a few messages can be     *)
(* sent, handled and answered, with the properties which speak about         *)
(* histories.  Also generates behaviours to replay against the code.         *)
EXTENDS Hislip, TLC

CONSTANTS
  Sessions,   \* sessions established from the start (1, 3, ..: conns s and s + 1)
  SMsgs,      \* what a synchronous channel may send: <<type, control code, payload length, x>>
  AMsgs,      \* what an asynchronous channel may send: <<type, control code, payload, parameter, x>>
  NMsgs,      \* what a new connection may send: <<type, version, identifier or -1>>
  NS, NA,     \* how many messages of each
  Envs,       \* other things that may happen: "hold", "ext", "gone", "shut", "pub"
  NE,         \* how often
  Resps,      \* responses of the device
  Limit, MaxM

VARIABLES
  ns, na, ne, \* messages sent and other events so far
  h,          \* history, see Init
  lab         \* label of the last step, for generated behaviours

mvars == <<vars, ns, na, ne, h, lab>>

Sync(s) == s \in Sessions
MInit ==
  /\ st = [c \in Conns |-> IF c \in Sessions THEN "sync" ELSE IF c - 1 \in Sessions THEN "async" ELSE "none"]
  /\ ses = [c \in Conns |-> IF c \in Sessions THEN c ELSE IF c - 1 \in Sessions THEN c - 1 ELSE 0]
  /\ sid = [c \in Conns |-> IF c \in Sessions THEN c + 1 ELSE -1]
  /\ sst = [c \in Conns |-> IF c \in Sessions THEN "norm" ELSE "none"]
  /\ prot = [c \in Conns |-> IF c \in Sessions THEN 512 ELSE 0]
  /\ maxm = [c \in Conns |-> MaxM]
  /\ cli = [c \in Conns |-> "open"]
  /\ inq = [c \in Conns |-> <<>>] /\ out = [c \in Conns |-> <<>>]
  /\ buf = [c \in Conns |-> <<>>]
  /\ mode = [c \in Conns |-> "norm"] /\ wait = [c \in Conns |-> NoWait]
  /\ todo = [c \in Conns |-> {}] /\ rep = [c \in Conns |-> NoRep]
  /\ srq = [c \in Conns |-> <<>>]
  /\ sdev = [c \in Conns |-> 1]
  /\ rem = [c \in Conns |-> TRUE]
  /\ clr = [c \in Conns |-> FALSE] /\ told = [c \in Conns |-> FALSE]
  /\ resp = [c \in Conns |-> FALSE]
  /\ lock = [d \in Devs |-> FreeLock] /\ held = [d \in Devs |-> FALSE]
  /\ cf = [maxs |-> Limit, overlap |-> 0, idn |-> <<>>, vendor |-> 7, sub |-> <<(<<104>>)>>, def |-> <<104>>,
           maxd |-> <<0, 0, 0, 0, 0, 0, 0, 9>>]
  /\ ns = [c \in Conns |-> 0] /\ na = [c \in Conns |-> 0] /\ ne = 0
  /\ h = [sent |-> [c \in Conns |-> <<>>],   \* data messages and clear-completes sent: [id, t]
          ran |-> [c \in Conns |-> <<>>],    \* commands executed and triggers, as sequences of message ids
          cut |-> [c \in Conns |-> 0],       \* last message discarded by a clear
          asked |-> [c \in Conns |-> 0],     \* requests handled on an asynchronous channel
          said |-> [c \in Conns |-> 0],      \* answers given to them
          clears |-> [c \in Conns |-> 0], acks |-> [c \in Conns |-> 0],
          req |-> [c \in Conns |-> 0],      \* remote/local request being handled
          drem |-> <<>>, dllo |-> <<>>]        \* state of the device
  /\ lab = <<>>

\* The payload of the k-th message of a synchronous channel is k, repeated
Rep(k, n) == [i \in 1..n |-> k]
MMsg(t, cc, ph, pl, d, x) == [t |-> t, c |-> cc, ph |-> ph, pl |-> pl, d |-> IF x = "" THEN d ELSE <<>>, x |-> x, u |-> TRUE]
BigLen == 30
Label(c, t, cc, ph, pl, d, x) ==
  IF x = "" THEN <<"send", c, t, cc, ph, pl, d>>
  ELSE <<"send", c, t, cc, ph, pl, IF x = "big" THEN [i \in 1..BigLen |-> 9] ELSE d, x, BigLen>>

SendSync(c) ==
  /\ st[c] = "sync" /\ ns[c] < NS
  /\ \E m \in SMsgs :
       LET k == ns[c] + 1 d == Rep(k, m[3]) IN
       /\ Send(c, MMsg(m[1], m[2], 0, k, d, m[4]))
       /\ ns' = [ns EXCEPT ![c] = k]
       /\ h' = [h EXCEPT !.sent[c] = Append(@, [id |-> k, t |-> m[1], x |-> m[4]])]
       /\ lab' = Label(c, m[1], m[2], 0, k, d, m[4])
       /\ UNCHANGED <<na, ne>>

SendAsync(c) ==
  /\ st[c] = "async" /\ na[c] < NA
  /\ \E m \in AMsgs :
       /\ Send(c, MMsg(m[1], m[2], m[4], 0, m[3], m[5]))
       /\ na' = [na EXCEPT ![c] = @ + 1]
       /\ lab' = Label(c, m[1], m[2], m[4], 0, m[3], m[5])
       /\ UNCHANGED <<ns, ne, h>>

New(c) ==
  /\ NMsgs # {} /\ st[c] = "none" /\ \A b \in Conns : b < c => st[b] # "none"
  /\ Connect(c) /\ lab' = <<"conn">>
  /\ UNCHANGED <<ns, na, ne, h>>

SendNew(c) ==
  /\ st[c] = "init" /\ na[c] < NA
  /\ \E m \in NMsgs :
       /\ Send(c, MMsg(m[1], 0, m[2], m[3], <<>>, m[4]))
       /\ na' = [na EXCEPT ![c] = @ + 1]
       /\ lab' = Label(c, m[1], 0, m[2], m[3], <<>>, m[4])
       /\ UNCHANGED <<ns, ne, h>>

Env ==
  /\ ne < NE
  /\ \/ /\ "hold" \in Envs
        /\ \E d \in Devs :
             \/ Hold(d) /\ lab' = <<"hold", d>>
             \/ Unhold(d) /\ lab' = <<"unhold", d>>
     \/ /\ "ext" \in Envs
        /\ \/ \E k \in {<<>>, <<107>>} : XAcq(101, 1, k, AcqRes(lock[1], 101, k)) /\ lab' = <<"xacq", 1, k>>
           \/ XRel(101, 1, RelRes(lock[1], 101)) /\ lab' = <<"xrel", 1>>
     \/ /\ "gone" \in Envs
        /\ \E c \in Conns : Task(c) /\ Gone(c) /\ lab' = <<"gone", c>>
     \/ /\ "shut" \in Envs
        /\ \E c \in Conns : Task(c) /\ Shut(c) /\ lab' = <<"shut", c>>
     \/ "pub" \in Envs /\ Publish(64 + ne) /\ lab' = <<"pub", 64 + ne>>
  /\ ne' = ne + 1
  /\ UNCHANGED <<ns, na, h>>

Quietly == lab' = <<>> /\ UNCHANGED <<ns, na, ne>>

\* Counts what a step did to the asynchronous channels
Asks(m) == m.x = "" /\ m.t \in {4, 10, 15, 19, 21, 24}
Count ==
  [h EXCEPT
   !.asked = [c \in Conns |-> h.asked[c] +
      IF st[c] = "async" /\ inq[c] # <<>> /\ Len(inq'[c]) < Len(inq[c]) /\ st'[c] = "async" /\ Asks(Head(inq[c])) THEN 1 ELSE 0],
   !.said = [c \in Conns |-> h.said[c] +
      IF st[c] = "async" /\ st'[c] = "async" /\ Len(out'[c]) > Len(out[c]) /\ out'[c][Len(out'[c])].t \notin {2, 20}
      THEN 1 ELSE 0],
   !.req = [c \in Conns |-> IF st[c] = "async" /\ inq[c] # <<>> /\ Len(inq'[c]) < Len(inq[c]) /\ Head(inq[c]).t = 10
                            THEN Head(inq[c]).c ELSE h.req[c]],
   !.clears = [c \in Conns |-> h.clears[c] + IF \E a \in Conns : ses[a] = c /\ st[a] = "async" /\ inq[a] # <<>>
                    /\ Len(inq'[a]) < Len(inq[a]) /\ st'[a] = "async" /\ Head(inq[a]).t = 19 THEN 1 ELSE 0],
   !.acks = [c \in Conns |-> h.acks[c] +
      IF Len(out'[c]) > Len(out[c]) /\ out'[c][Len(out'[c])].k = "m" /\ out'[c][Len(out'[c])].t = 9 THEN 1 ELSE 0],
   !.cut = [c \in Conns |-> IF Len(out'[c]) > Len(out[c]) /\ out'[c][Len(out'[c])].k = "m" /\ out'[c][Len(out'[c])].t = 9
                            THEN Head(inq[c]).pl ELSE h.cut[c]]]

Server ==
  /\ Quietly
  /\ \/ (\E c \in Conns : Internal(c)) /\ h' = Count
     \/ \E c \in Conns, r \in Resps :
          /\ Exec(c, buf[c] \o Head(inq[c]).d, r)
          /\ h' = [h EXCEPT !.ran[c] = Append(@, buf[c] \o Head(inq[c]).d)]
     \/ \E c \in Conns : DevTrigger(c) /\ h' = [h EXCEPT !.ran[c] = Append(@, <<Head(inq[c]).pl>>)]
     \/ \E c \in Conns : DevClear(c) /\ h' = Count
     \/ \E c \in Conns : \E k \in todo[c] :
          /\ DevCall(c, k[1], k[2], 0)
          /\ h' = [Count EXCEPT !.drem = IF k[1] = "rem" THEN <<k[2]>> ELSE @, !.dllo = IF k[1] = "llo" THEN <<k[2]>> ELSE @]

ReadOne(c) ==
  LET o == Head(out[c]) IN
  /\ CASE o.k = "m" -> Recv(c, [t |-> o.t, c |-> CHOOSE x \in o.c : TRUE, ph |-> o.ph, pl |-> o.pl, d |-> o.d])
       [] o.k = "i" -> Recv(c, [t |-> 1, c |-> 0, ph |-> o.ph, pl |-> c + 1, d |-> <<>>])
       [] o.k = "r" -> \E n \in 1..o.max : n <= Len(o.d) /\
            Recv(c, [t |-> IF n = Len(o.d) THEN 7 ELSE 6, c |-> 0, ph |-> o.ph, pl |-> o.pl, d |-> SubSeq(o.d, 1, n)])
  /\ UNCHANGED h

Client ==
  /\ Quietly
  /\ \/ \E c \in Conns : out[c] # <<>> /\ ReadOne(c)
     \/ \E c \in Conns : Eof(c) /\ UNCHANGED h

MNext == \/ \E c \in Conns : SendSync(c) \/ SendAsync(c) \/ New(c) \/ SendNew(c)
         \/ Env \/ Server \/ Client

MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
(* Histories *)
Ids(q) == [i \in DOMAIN q |-> q[i].id]
Increasing(q) == \A i, j \in DOMAIN q : i < j => q[i] <= q[j]
TypeOf(c, id) == LET i == CHOOSE i \in DOMAIN h.sent[c] : h.sent[c][i].id = id IN h.sent[c][i].t
SentIds(c, T) == {h.sent[c][i].id : i \in {j \in DOMAIN h.sent[c] : h.sent[c][j].t \in T}}

\* C08: in the order in which they were completed, each once
Last(q) == q[Len(q)]
RunInOrder == \A c \in Conns :
  /\ \A i, j \in DOMAIN h.ran[c] : i < j => Last(h.ran[c][i]) < Last(h.ran[c][j])
  /\ \A i \in DOMAIN h.ran[c] : Increasing(h.ran[c][i])
  /\ \A i, j \in DOMAIN h.ran[c] : i # j => {h.ran[c][i][k] : k \in DOMAIN h.ran[c][i]} \cap {h.ran[c][j][k] : k \in DOMAIN h.ran[c][j]} = {}
\* C08: a command is all the data from the previous end (or clear) up to its own end
RunWhole == \A c \in Conns : \A i \in DOMAIN h.ran[c] :
  LET r == h.ran[c][i] IN
  r # <<>> =>
    \/ TypeOf(c, r[1]) = 12 /\ Len(r) = 1
    \/ LET S == {r[k] : k \in DOMAIN r}
           lo == r[1]  hi == r[Len(r)]
       IN /\ TypeOf(c, hi) = 7 /\ \A x \in S \ {hi} : TypeOf(c, x) = 6
          /\ \A x \in SentIds(c, {6, 7}) : lo <= x /\ x <= hi => x \in S
          /\ \A x \in SentIds(c, {6}) : x < lo =>
               \/ \E y \in SentIds(c, {7}) : x < y /\ y < lo
               \/ h.clears[c] > 0
\* C09: nothing from before an acknowledged clear runs afterwards, acknowledged once
ClearDiscards == [][\A c \in Conns : Len(h'.ran[c]) > Len(h.ran[c]) =>
                      LET r == h'.ran[c][Len(h'.ran[c])] IN \A k \in DOMAIN r : r[k] > h.cut[c]]_mvars
AckBounded == \A c \in Conns : h.acks[c] <= h.clears[c]
FreshAfterAck == [][\A c \in Conns : h'.acks[c] > h.acks[c] => buf'[c] = <<>> /\ mode'[c] = "norm"]_mvars

\* C10, C11: one answer per request
OneAnswer == \A c \in Conns : h.said[c] <= h.asked[c] /\ h.asked[c] <= h.said[c] + 1

\* C10: the answer tells the truth
NewOut(c) == IF Len(out'[c]) > Len(out[c]) THEN out'[c][Len(out'[c])] ELSE NoRep
LockTruth == [][\A c \in Conns : (st[c] = "async" /\ NewOut(c).k = "m" /\ NewOut(c).t = 5) =>
    LET s == ses[c]  L == lock[Dev(c)]  R == lock'[Dev(c)]
        release == wait[c] = NoWait /\ Head(inq[c]).c = 0
        k == IF wait[c] # NoWait THEN wait[c].k ELSE Head(inq[c]).d
    IN IF release
       THEN /\ CanUse(R, s) => R.x # s /\ s \notin R.sh
            /\ NewOut(c).c = {IF L.x = s THEN 1 ELSE IF s \in L.sh THEN 2 ELSE 3}
       ELSE IF NewOut(c).c = {1}
       THEN (IF k = <<>> THEN L.x = 0 /\ R.x = s ELSE s \notin L.sh /\ s \in R.sh /\ R.key = k) /\ LockSane(R)
       ELSE R = L]_mvars
\* C10, C11: nobody else's lock changes with one session's request
OthersKeep == [][\A d \in Devs : \A o \in {1, 3, 101} :
    (lock[d].x = o /\ lock'[d].x # o) =>
       \/ lab' # <<>> /\ lab'[1] = "xrel" /\ o = 101
       \/ \E c \in Conns : ses[c] = o /\ (inq'[c] # inq[c] \/ st'[c] # st[c])]_mvars

\* C02: device calls of a session that is locked out do not happen
OnlyEntitled == [][\A c \in Conns : Len(h'.ran[c]) > Len(h.ran[c]) => CanUse(lock[Dev(c)], ses[c]) /\ ~held[Dev(c)]]_mvars

\* C11: the only reasons to rest are locks and the device being in use
Stuck == ~(\E c \in Conns : ENABLED Internal(c)) /\ \A c \in Conns : out[c] = <<>> \/ cli[c] = "gone"
DevStep == \E c \in Conns :
             \/ \E r \in Resps : Exec(c, buf[c] \o Head(inq[c]).d, r)
             \/ DevTrigger(c) \/ DevClear(c)
             \/ \E k \in todo[c] : DevCall(c, k[1], k[2], 0)
RestIsQuiet == (Stuck /\ ~(\E c \in Conns : st[c] = "closing") /\ ~ENABLED DevStep) => Quiet({}, {})
\* With no lock and no other user everything is answered
FreeIsDone == (Stuck /\ ~(\E c \in Conns : st[c] = "closing") /\ ~ENABLED DevStep
               /\ \A d \in Devs : lock[d] = FreeLock /\ ~held[d])
              => \A c \in Conns : Task(c) => inq[c] = <<>> /\ wait[c] = NoWait /\ todo[c] = {}

\* C12: at most one service request until the next status query
OneSrq == \A c \in Conns : Cardinality({i \in DOMAIN out[c] : out[c][i].k = "m" /\ out[c][i].t = 20}) <=
             1 + Cardinality({i \in DOMAIN out[c] : out[c][i].k = "m" /\ out[c][i].t = 22})
SrqNotLost == Stuck => \A c \in Conns : st[c] = "async" /\ Wanted(srq[c]) => told[ses[c]] \/ wait[c] # NoWait \/ todo[c] # {}

\* C14: once answered, the device is in the requested state (single session)
RemoteDone == [][\A c \in Conns : (st[c] = "async" /\ NewOut(c).k = "m" /\ NewOut(c).t = 11) =>
    LET r == IF todo[c] # {} THEN h.req[c] ELSE Head(inq[c]).c IN
    /\ r \in {0, 2, 6} => h'.drem = <<FALSE>>
    /\ r \in {3, 5} => h'.drem = <<TRUE>>
    /\ r \in {0, 2} => h'.dllo = <<FALSE>>
    /\ r \in {4, 5} => h'.dllo = <<TRUE>>
    /\ r \in {1, 4} => h'.drem = h.drem
    /\ r \in {1, 3, 6} => h'.dllo = h.dllo
    /\ r <= 6]_mvars

\* C07
IdsGiven == \A a, b \in Conns : a # b /\ Live(a) /\ Live(b) /\ sid[a] # -1 => sid[a] # sid[b]
AttachOnce == \A s \in Conns : Cardinality({c \in Conns : ses[c] = s /\ c # s}) <= 1
NoRunBeforeAttach == \A s \in Conns : h.ran[s] # <<>> => \E c \in Conns : c # s /\ ses[c] = s

-----------------------------------------------------------------------------
(* C13 *)
\* Nothing runs that was not sent as a complete regular message
OnlyRegular == \A c \in Conns : \A i \in DOMAIN h.ran[c] : \A k \in DOMAIN h.ran[c][i] :
   \E j \in DOMAIN h.sent[c] : h.sent[c][j].id = h.ran[c][i][k] /\ h.sent[c][j].x = "" /\ h.sent[c][j].t \in {6, 7, 12}
\* Unknown and over-long messages are skipped as a whole, a bad header is the end
Handled(c) == inq[c] # <<>> /\ Len(inq'[c]) < Len(inq[c])
SkippedWhole == [][\A c \in Conns :
   (Handled(c) /\ st'[c] = st[c] /\ NonFatal(Head(inq[c])) /\ mode[c] = "norm")
     => out'[c] = Append(out[c], Error) /\ buf' = buf /\ lock' = lock /\ h'.ran = h.ran /\ inq'[c] = Tail(inq[c])]_mvars
BadEnds == [][\A c \in Conns : (Handled(c) /\ BadHeader(Head(inq[c])))
     => st'[c] = "closing" /\ inq'[c] = <<>> /\ (out'[c] = Append(out[c], Fatal) \/ cli[c] # "open")]_mvars
\* Whatever happens to the others
OthersServed == [][\A c, b \in Conns : (Handled(c) /\ Head(inq[c]).x # "" /\ ses[b] # ses[c])
     => st'[b] = st[b] /\ inq'[b] = inq[b] /\ out'[b] = out[b] /\ buf'[b] = buf[b]]_mvars

-----------------------------------------------------------------------------
(* Mutants: each must violate a property above *)
EnterKeeps(c) ==
  /\ st[c] = "sync" /\ clr[c] /\ mode[c] = "norm"
  /\ clr' = [clr EXCEPT ![c] = FALSE]
  /\ mode' = [mode EXCEPT ![c] = "clearing"]
  /\ UNCHANGED <<cf, st, cli, inq, out, ses, buf, wait, todo, rep, srq, sid, sdev, sst, prot, maxm, rem, told, resp, dvars>>
EntitledAlways(c) == TRUE
GrantNever(c) == FALSE
GrantBlind(c) ==
  /\ st[c] = "async" /\ wait[c] # NoWait
  /\ Put(c, LockReply(c, {1}))
  /\ wait' = [wait EXCEPT ![c] = NoWait]
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, todo, rep, srq, svars, dvars>>
InitAsyncTwice(c, m) ==
  \/ Refuse(c)
  \/ \E s \in LiveSessions : sid[s] = m.pl /\ Attach(c, m, s)
InitNoLimit(c, m) ==
  IF ~HasDev(m.d) THEN Refuse(c)
  ELSE /\ Eat(c)
       /\ st' = [st EXCEPT ![c] = "sync"]
       /\ ses' = [ses EXCEPT ![c] = c]
       /\ sdev' = [sdev EXCEPT ![c] = DevOf(m.d)]
       /\ sst' = [sst EXCEPT ![c] = "hand"]
       /\ prot' = [prot EXCEPT ![c] = Min(512, m.ph)]
       /\ Put(c, [k |-> "i", c |-> {cf.overlap}, ph |-> Min(512, m.ph)])
       /\ srq' = [srq EXCEPT ![c] = <<>>]
       /\ UNCHANGED <<cf, cli, buf, mode, wait, todo, rep, sid, maxm, rem, clr, told, resp, dvars>>
SrqAlways(c) ==
  /\ Idle(c) /\ srq[c] # <<>>
  /\ Put(c, Msg(20, {srq[c][1].v}, 0, 0, <<>>))
  /\ srq' = [srq EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<cf, st, cli, inq, ses, buf, mode, wait, todo, rep, svars, dvars>>
SrqNever(c) == FALSE
CallsWrong(r) == CASE r \in {0, 2} -> {<<"rem", FALSE>>} [] r = 5 -> {<<"llo", TRUE>>} [] OTHER -> {<<"rem", FALSE>>}

-----------------------------------------------------------------------------
(* Alphabets *)
S3(T) == {<<t[1], t[2], t[3], "">> : t \in T}
A4(T) == {<<t[1], t[2], t[3], t[4], "">> : t \in T}
DataMsgs == S3({<<6, 0, 1>>, <<7, 0, 1>>, <<12, 0, 0>>})
DataClear == S3({<<6, 0, 1>>, <<7, 0, 1>>, <<8, 0, 0>>})
JustData == S3({<<7, 0, 1>>})
Clears == A4({<<19, 0, <<>>, 0>>})
LockMsgs == A4({<<4, 1, <<>>, 0>>, <<4, 1, <<>>, 32767>>, <<4, 1, <<107>>, 0>>, <<4, 1, <<107>>, 32767>>, <<4, 0, <<>>, 0>>})
LockFew == A4({<<4, 1, <<>>, 32767>>, <<4, 1, <<107>>, 32767>>, <<4, 0, <<>>, 0>>})
ChanMsgs == A4({<<4, 1, <<>>, 32767>>, <<4, 0, <<>>, 0>>, <<19, 0, <<>>, 0>>, <<21, 0, <<>>, 0>>, <<10, 5, <<>>, 0>>})
SrqMsgs == A4({<<21, 0, <<>>, 0>>, <<24, 0, <<>>, 0>>})
RemMsgs == A4({<<10, c, <<>>, 0>> : c \in 0..7} \cup {<<21, 0, <<>>, 0>>})
NewMsgs == S3({<<0, 256, 0>>, <<0, 768, 0>>, <<17, 0, 2>>, <<17, 0, 3>>, <<6, 0, 0>>})
BadData == S3({<<6, 0, 1>>, <<7, 0, 1>>, <<50, 0, 1>>, <<200, 0, 1>>, <<5, 0, 0>>}) \cup {<<7, 0, 1, "big">>, <<7, 0, 1, "bad">>}
BadAsync == A4({<<24, 0, <<>>, 0>>, <<60, 0, <<>>, 0>>, <<7, 0, <<>>, 0>>}) \cup {<<4, 1, <<>>, 0, "big">>, <<24, 0, <<>>, 0, "bad">>}
BadNew == S3({<<0, 512, 0>>, <<50, 0, 0>>}) \cup {<<0, 512, 0, "big">>, <<0, 512, 0, "bad">>}
None == {}
TwoResps == {<<>>, <<9, 9, 9>>}
OneResp == {<<9>>}
EHold == {"hold"}
EExt == {"ext"}
EGone == {"gone"}
EShut == {"shut"}
EPub == {"pub"}
EHX == {"hold", "ext"}

(* Generated behaviours: whatever the server says is read at once *)
GNext ==
  IF \E c \in Conns : out[c] # <<>> /\ cli[c] # "gone" THEN Client
  ELSE \/ \E c \in Conns : SendSync(c) \/ SendAsync(c) \/ New(c) \/ SendNew(c)
       \/ Env
       \/ /\ (\/ \E c \in Conns : Internal(c)
              \/ \E c \in Conns, r \in Resps : Exec(c, buf[c] \o Head(inq[c]).d, r)
              \/ \E c \in Conns : DevTrigger(c) \/ DevClear(c)
              \/ \E c \in Conns : \E k \in todo[c] : DevCall(c, k[1], k[2], 0)
              \/ \E c \in Conns : Eof(c))
          /\ lab' = <<"polls", 1>> /\ UNCHANGED <<ns, na, ne, h>>
GSpec == MInit /\ [][GNext]_mvars
GView == <<cvars, svars, dvars, ns, na, ne>>
\* Records are printed in an order which is not unique, tuples are not
SI(m) == <<m.t, m.c, m.ph, m.pl, m.d, m.x>>
SO(o) == CASE o.k = "m" -> <<"m", o.t, IF Cardinality(o.c) = 256 THEN {-1} ELSE {x \in 0..255 : x \in o.c}, o.ph, o.pl, o.d>>
           [] o.k = "i" -> <<"i", o.ph>>
           [] o.k = "r" -> <<"r", o.d, o.ph, o.pl, o.max, o.cut>>
           [] OTHER -> <<o.k>>
Map(f(_), q) == [i \in DOMAIN q |-> f(q[i])]
SQ(x) == <<x.v, x.must>>
Todo(t) == <<(<<"rem", TRUE>> \in t), (<<"rem", FALSE>> \in t), (<<"llo", TRUE>> \in t), (<<"llo", FALSE>> \in t), (<<"stb", FALSE>> \in t)>>
S == <<[c \in Conns |-> <<st[c], cli[c], Map(SI, inq[c]), Map(SO, out[c]), ses[c], buf[c], mode[c], <<wait[c].k, wait[c].t>>,
        SO(rep[c]), Map(SQ, srq[c]), sid[c], sst[c], prot[c], maxm[c], resp[c],
        clr[c], told[c], rem[c], Todo(todo[c]), ns[c], na[c]>>], lock[1].x, lock[1].key, <<1 \in lock[1].sh, 3 \in lock[1].sh, 101 \in lock[1].sh>>, held[1], ne>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
