------------------------------ MODULE MCCross --------------------------------
(* Every history of a few requests of clients of several protocols, checked  *)
(* against what the clients themselves know; and behaviours to replay.       *)
EXTENDS Cross, TLC
CONSTANTS C, Kind,   \* clients and their protocols
          M,         \* requests of a client
          Waits, Keys
VARIABLES nr,        \* requests made
          asked,     \* requests for exclusive locks, with the result which means success
          mine,      \* exclusive locks which clients were granted and did not give back: epoch, 0: none
          shut,      \* locks of others which were known when a request was made
          lab
mvars == <<vars, nr, mine, shut, asked, lab>>

Idle(c) == ~Busy(c) /\ cl[c].out = <<>>
Range(s) == {s[i] : i \in DOMAIN s}
Simple == {"raw", "tel"}
MInit == /\ cl = [c \in C |-> Client0] /\ L = FreeLock /\ run = {}
         /\ nr = [c \in C |-> 0] /\ mine = [c \in C |-> 0] /\ shut = {} /\ asked = {} /\ lab = <<>>
Op(o, c, w, k) == [op |-> o, id |-> 10 * c + nr[c], wait |-> w, k |-> k]
Owned(c) == {<<10 * c + nr[c], d, mine[d]>> : d \in {d \in C \ {c} : mine[d] # 0}}
Sent(c) == nr' = [nr EXCEPT ![c] = @ + 1] /\ shut' = shut \cup Owned(c)
MCmd(c) == \E w \in IF Kind[c] \in Simple \/ Kind[c] = "his" THEN {"long"} ELSE Waits :
  /\ nr[c] < M /\ (Idle(c) \/ Kind[c] \in Simple)
  /\ Send(c, Op("cmd", c, w, <<>>)) /\ Sent(c) /\ lab' = <<"cmd", c, w>> /\ UNCHANGED <<mine, asked>>
MLock(c) == \E w \in Waits, k \in IF Kind[c] = "his" THEN Keys ELSE {<<>>} :
  /\ nr[c] < M /\ Idle(c) /\ Kind[c] \notin Simple
  /\ Send(c, Op("lock", c, w, k)) /\ Sent(c) /\ lab' = <<"lock", c, w, k>> /\ UNCHANGED mine
  /\ asked' = IF k = <<>> THEN asked \cup {<<c, 10 * c + nr[c], "ok">>} ELSE asked
MUnlock(c) == /\ nr[c] < M /\ Idle(c) /\ Kind[c] \notin Simple
              /\ Send(c, Op("unlock", c, "no", <<>>)) /\ Sent(c) /\ lab' = <<"unlock", c>>
              /\ mine' = [mine EXCEPT ![c] = 0] /\ UNCHANGED asked
MLeave(c) == /\ Leave(c) /\ lab' = <<"leave", c>> /\ mine' = [mine EXCEPT ![c] = 0] /\ UNCHANGED <<nr, shut, asked>>
Clients(c) == MCmd(c) \/ MLock(c) \/ MUnlock(c) \/ MLeave(c)
MRes(c) == /\ cl[c].out # <<>> /\ Res(c, cl[c].out[1][1], cl[c].out[1][2])
           /\ mine' = [mine EXCEPT ![c] = IF <<c, cl[c].out[1][1], cl[c].out[1][2]>> \in asked THEN nr[c] ELSE @]
           /\ lab' = <<>> /\ UNCHANGED <<nr, shut, asked>>
Server(c) == /\ \/ Enter(c) \/ Exec(c) \/ RefuseCmd(c) \/ Grant(c) \/ RefuseLock(c) \/ Unlock(c) \/ Gone(c)
             /\ lab' = <<>> /\ UNCHANGED <<nr, mine, shut, asked>>
MNext == \E c \in C : Clients(c) \/ MRes(c) \/ Server(c)
MSpec == MInit /\ [][MNext]_mvars
MView == <<vars, nr, mine, shut, asked>>

\* C25: while somebody has an exclusive lock, nobody else gets anything
OneOwner == Cardinality({c \in C : mine[c] # 0}) <= 1
\* What was requested since is not executed, not granted before the lock is given back
Still(id) == \E s \in shut : s[1] = id /\ mine[s[2]] = s[3]
Done(c, id) == id \in (run' \ run) \/ <<id, "ok">> \in Range(cl'[c].out) \ Range(cl[c].out)
Excluded == [][\A c \in C : \A i \in DOMAIN cl[c].pend : Still(cl[c].pend[i].id) /\ cl[c].pend[i].op # "unlock"
                  => ~Done(c, cl[c].pend[i].id)]_mvars
\* Every command runs once
Once == [][\A c \in C : cl[c].ph = "in" /\ cl'[c].ph = "new" /\ Busy(c) => Head1(c).id \notin run]_mvars
\* A result means that it ran, a refusal that it did not
Truth == \A c \in C : /\ \A i \in DOMAIN cl[c].pend : cl[c].pend[i].id \notin run
                      /\ \A x \in Range(cl[c].out) : x[2] = "no" => x[1] \notin run
Sane == LockSane(L) /\ \A c \in C : cl[c].up = "gone" => L.x # c /\ c \notin L.sh
\* Waiting ends once all others have left
LSpec == /\ MSpec /\ \A c \in C : WF_mvars(MRes(c)) /\ WF_mvars(Server(c)) /\ (c # 1 => WF_mvars(MLeave(c)))
Served == (cl[1].up = "up" /\ Busy(1)) ~> (cl[1].up # "up" \/ (~Busy(1) /\ cl[1].out = <<>>))

\* Mutants
AnyMayUse(c) == Kind[c] = "raw" \/ CanUse(L, c)
GoneKeeps(c) == /\ cl[c].up = "left" /\ cl[c].ph # "in"
                /\ cl' = [cl EXCEPT ![c].up = "gone", ![c].pend = <<>>, ![c].out = <<>>] /\ UNCHANGED <<L, run>>
ExecAgain(c) == /\ Busy(c) /\ cl[c].ph = "in" /\ run' = run \cup {Head1(c).id} /\ UNCHANGED L
                /\ (Finish(c, "ok") \/ cl' = [cl EXCEPT ![c].ph = "new"])

K3 == <<"raw", "vxi", "his">>
Kr == <<"raw", "vxi">>
K2 == <<"vxi", "his">>
Kt == <<"tel", "his">>
K4 == <<"raw", "vxi", "his", "his">>
WAll == {"no", "long"}
KAll == {<<>>, <<65>>}
K0 == {<<>>}

\* Behaviours to replay: the servers do at once what they can, one client after the other
Able(c) == cl[c].out # <<>> \/ (cl[c].up = "left" /\ ~Stuck(c)) \/ (Busy(c) /\ ~Stuck(c))
GServer(c) == IF cl[c].out # <<>> /\ cl[c].up = "up" THEN Res(c, cl[c].out[1][1], cl[c].out[1][2])
              ELSE \/ Enter(c) \/ Exec(c) \/ Grant(c) \/ RefuseLock(c) \/ Unlock(c)
                   \/ (~CanUse(L, c) /\ RefuseCmd(c)) \/ (~Busy(c) /\ Gone(c))
First == CHOOSE c \in C : Able(c) /\ \A d \in C : Able(d) => c <= d
GOp(o, w, k) == [op |-> o, id |-> 0, wait |-> w, k |-> k]
GClient(c) ==
  \/ \E w \in IF Kind[c] \in Simple \/ Kind[c] = "his" THEN {"long"} ELSE Waits :
       Idle(c) /\ Send(c, GOp("cmd", w, <<>>)) /\ lab' = <<"cmd", c, w, <<>>>>
  \/ \E w \in Waits, k \in IF Kind[c] = "his" THEN Keys ELSE {<<>>} :
       Idle(c) /\ Kind[c] \notin Simple /\ Send(c, GOp("lock", w, k)) /\ lab' = <<"lock", c, w, k>>
  \/ Idle(c) /\ Kind[c] \notin Simple /\ Send(c, GOp("unlock", "no", <<>>)) /\ lab' = <<"unlock", c, "no", <<>>>>
  \/ Leave(c) /\ lab' = <<"leave", c>>
GStep == /\ UNCHANGED <<nr, mine, shut, asked>>
         /\ IF \E c \in C : Able(c) THEN GServer(First) /\ lab' = <<>> ELSE \E c \in C : GClient(c)
GSpec == MInit /\ [][GStep]_mvars
GView == <<cl, L>>
SR(r) == <<r.op, r.wait, r.k>>
S == <<[c \in C |-> <<cl[c].up, cl[c].ph, cl[c].out, [i \in DOMAIN cl[c].pend |-> SR(cl[c].pend[i])]>>], L.x, L.sh, L.key>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
