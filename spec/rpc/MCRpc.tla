-------------------------------- MODULE MCRpc --------------------------------
(* All orders in which replies to the calls of a client, to others and late  *)
(* or duplicated ones can arrive, and behaviours to replay against the code. *)
EXTENDS RpcClient, TLC
CONSTANTS Ops, Kinds, NI, NP
VARIABLES ni, np, first, lab
mvars == <<vars, ni, np, first, lab>>

X == <<"1", "2", "3", "4", "5", "6", "7", "8">>
Idx(x) == CHOOSE i \in 1..8 : X[i] = x
Used == {Idx(x) : x \in xs}
Newest == IF xs = {} THEN 0 ELSE CHOOSE i \in Used : \A j \in Used : j <= i

MInit == Init0 /\ ni = 0 /\ np = 0 /\ lab = <<>>
         /\ first = [i \in 1..8 |-> <<>>]   \* replies to call i, and whether the call had been made

Arg(op) == CASE op = "null" -> <<>> [] op = "regpm" -> <<5, 6>> [] op = "callit" -> <<9, 1, 2, 77>> [] OTHER -> <<1, 2, 3, ni>>
MInvoke == /\ ni < NI /\ \E op \in Ops : Invoke(op, Arg(op)) /\ lab' = <<"invoke", op>>
           /\ ni' = ni + 1 /\ UNCHANGED <<np, first>>
\* What the client sends is seen before the peer says anything else
MSaw == /\ pend # <<>> /\ done = <<>> /\ pend[1].x = ""
        /\ LET r == Reqs(pend[1].op, pend[1].a)[pend[1].i] IN Saw(X[Newest + 1], r[1], r[2])
        /\ lab' = <<"saw">> /\ UNCHANGED <<ni, np, first>>
Val(op, n) == IF op = "callit" THEN <<n, n>> ELSE IF op = "null" THEN <<>> ELSE IF op = "getport" THEN <<n>> ELSE <<n % 2>>
MPut == /\ np < NP /\ open
        /\ \E k \in Kinds, o \in {0, 1, 2} : \E b \in {0, 1} :
             LET i == IF o = 2 THEN Newest + 1 ELSE IF Newest > o THEN Newest - o ELSE 0
                 m == [x |-> IF i = 0 THEN "0" ELSE X[i], k |-> k,
                       v |-> IF k = "ok" /\ pend # <<>> THEN Val(pend[1].op, b) ELSE IF k \in {"mism", "rpcv"} THEN <<2, 2>> ELSE <<0>>] IN
             /\ i > 0 /\ i < 8
             /\ k # "ok" => b = 0
             /\ k = "ok" => pend # <<>>
             /\ Put(m)
             /\ first' = IF k \notin {"call", "tiny"} THEN [first EXCEPT ![i] = Append(@, [m |-> m, e |-> i > Newest])] ELSE first
             /\ lab' = <<"put", o, k, b>>
        /\ np' = np + 1 /\ UNCHANGED ni
MClose == np > 0 /\ Close /\ lab' = <<"close">> /\ UNCHANGED <<ni, np, first>>
MRes == /\ done # <<>> /\ Res(IF done[1].k = Any THEN "io" ELSE done[1].k, done[1].v)
        /\ lab' = <<>> /\ UNCHANGED <<ni, np, first>>
MInternal == Internal /\ lab' = <<>> /\ UNCHANGED <<ni, np, first>>
MNext == MInvoke \/ MSaw \/ MPut \/ MClose \/ MRes \/ MInternal
MSpec == MInit /\ [][MNext]_mvars

\* C22: the result is that of the reply to this call, the first one unless that came before the call
Replies(i) == {first[i][j] : j \in DOMAIN first[i]}
Mine == {r \in Replies(Idx(pend[1].x)) : r = first[Idx(pend[1].x)][1] \/ first[Idx(pend[1].x)][1].e}
OwnReply == [][(done = <<>> /\ done' # <<>> /\ done'[1].k = "ok") => \E r \in Mine :
   IF pend[1].op \in {"register", "regpm"} THEN r.m.v[1] = 1 ELSE done'[1] \in Decode(pend[1].op, r.m)]_mvars
\* A refusal of this call is the result
Refusals == [][(done = <<>> /\ done' # <<>> /\ done'[1].k \in {"prog", "proc", "auth", "mism"}) =>
   \E r \in Mine : r.m.k = done'[1].k]_mvars
\* Once a reply to the call is there, the client does not go on waiting
Stops == (pend # <<>> /\ pend[1].x # "" /\ (\E r \in Replies(Idx(pend[1].x)) : ~r.e)) => done # <<>> \/ ENABLED Take
\* A new identifier for each call
Fresh == Newest <= NI * 2
\* Mutant: any reply will do
AnswersAny(m, x) == m.k # "call"

AllOps == {"null", "set", "getport", "callit", "register"}
RegOps == {"regpm"}
TwoOps == {"getport", "set"}
AllKinds == {"ok", "cut", "prog", "mism", "proc", "garb", "sys", "rpcv", "auth", "call", "tiny", "bad"}
FewKinds == {"ok", "cut", "mism", "auth", "call"}

GNext == IF done # <<>> THEN MRes ELSE IF ENABLED Internal THEN MInternal ELSE IF ENABLED MSaw THEN MSaw ELSE MInvoke \/ MPut \/ MClose
GSpec == MInit /\ [][GNext]_mvars
GView == <<vars, ni, np>>
SM(m) == <<m.x, m.k, m.v>>
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
SP(p) == <<p.op, p.a, p.i, p.x, p.got>>
SD(d) == <<d.k, d.v>>
S == <<Map(SP, pend), Map(SM, net), [i \in 1..8 |-> X[i] \in xs], open, Map(SD, done), ni, np>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
