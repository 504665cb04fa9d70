------------------------------ MODULE MCServe --------------------------------
(* Every sequence of connects, requests, faults and departures of a few      *)
(* clients, for every small limit; and behaviours to replay.                 *)
EXTENDS Serve, TLC
CONSTANTS C,        \* clients
          Lims,     \* limits
          P,        \* requests per connection
          NB        \* at most so many faults (bad, half)
VARIABLES made,     \* connections in the order they were made
          lab
mvars == <<vars, made, lab>>

MInit == /\ cf \in {[lo |-> x, hi |-> x, hello |-> b] : x \in Lims, b \in BOOLEAN}
         /\ cn = [c \in C |-> Conn0] /\ q = <<>> /\ made = <<>> /\ lab = <<>>
Faults == Cardinality({c \in C : cn[c].bad}) + Cardinality({c \in C : cn[c].half})
\* Who comes next makes no difference
Next1 == {c \in C : cn[c].st = "no" /\ \A d \in C : d < c => cn[d].st # "no"}
MConn == \E c \in Next1 : Conn(c) /\ made' = Append(made, c) /\ lab' = <<"conn", c>>
MProbe(c) == cn[c].pr < P /\ Probe(c) /\ lab' = <<"probe", c>>
MBad(c) == Faults < NB /\ ~cn[c].bad /\ Bad(c) /\ lab' = <<"bad", c>>
MHalf(c) == Faults < NB /\ Half(c) /\ lab' = <<"half", c>>
MLeave(c) == Leave(c) /\ lab' = <<"leave", c>>
Clients == MConn \/ (UNCHANGED made /\ \E c \in C : MProbe(c) \/ MBad(c) \/ MHalf(c) \/ MLeave(c))
MAccept == Accept /\ lab' = <<>> /\ UNCHANGED made
MDrop == (\E c \in C : Drop(c)) /\ lab' = <<>> /\ UNCHANGED made
MAns(c) == Ans(c) /\ lab' = <<>> /\ UNCHANGED made
MNext == Clients \/ MAccept \/ MDrop \/ \E c \in C : MAns(c)
MSpec == MInit /\ [][MNext]_mvars

\* C26: at most so many are served
AtMost == Cardinality(Run) <= cf.hi
OnlyServed == [][\A c \in C : cn'[c].pr < cn[c].pr /\ ~cn'[c].left => cn[c].st = "run"]_mvars
\* At rest the first of those who are still there are served, and nobody who was good is cut off
Here(c) == cn[c].st \in {"wait", "run"} /\ ~cn[c].left
Ahead(c) == {made[i] : i \in {i \in DOMAIN made : \E j \in DOMAIN made : made[j] = c /\ i < j}}
Fair == AllDone => \A c \in C :
  Here(c) /\ Cardinality({d \in Ahead(c) : Here(d)}) < cf.lo => cn[c].bad \/ (cn[c].pr = 0 /\ cn[c].st = "run")
NotCut == \A c \in C : cn[c].st = "gone" => Over(c)
Order == [][\A i \in DOMAIN made, j \in DOMAIN made :
              i < j /\ cn[made[j]].st = "wait" /\ cn'[made[j]].st = "run" => cn[made[i]].st # "wait"]_mvars
\* Client 1 may be any of them
MConnAny == \E c \in C : Conn(c) /\ made' = Append(made, c) /\ lab' = <<"conn", c>>
\* Whoever stays is served in the end, when the others leave

LNext == \/ MConnAny \/ (UNCHANGED made /\ \E c \in C : MProbe(c) \/ (c # 1 /\ (MBad(c) \/ MHalf(c) \/ MLeave(c))))
         \/ MAccept \/ MDrop \/ \E c \in C : MAns(c)
LSpec == /\ MInit /\ [][LNext]_mvars /\ WF_mvars(MAccept) /\ WF_mvars(MDrop)
         /\ \A c \in C : WF_mvars(MAns(c)) /\ (c # 1 => WF_mvars(UNCHANGED made /\ MLeave(c)))
Served == \A c \in {1} : (cn[c].pr > 0) ~> (cn[c].pr = 0)

\* Mutants
AcceptMore == /\ q # <<>> /\ Cardinality(Run) <= cf.hi
              /\ cn' = [cn EXCEPT ![Head(q)].st = "run"] /\ q' = Tail(q) /\ UNCHANGED cf
DropLeaks(c) ==     \* somebody reset before being served keeps its place
  /\ cn[c].st = "run" /\ Over(c) /\ ~(cn[c].left /\ cn[c].bad)
  /\ cn' = [cn EXCEPT ![c].st = "gone"] /\ UNCHANGED <<cf, q>>
AcceptDies == /\ q # <<>> /\ Cardinality(Run) < cf.hi /\ \A c \in C : cn[c].st = "gone" => ~cn[c].bad
              /\ cn' = [cn EXCEPT ![Head(q)].st = "run"] /\ q' = Tail(q) /\ UNCHANGED cf
AcceptAny == \E i \in DOMAIN q :
  /\ Cardinality(Run) < cf.hi
  /\ cn' = [cn EXCEPT ![q[i]].st = "run"]
  /\ q' = SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)) /\ UNCHANGED cf

\* Behaviours to replay: the server does at once what it can
GStep == IF \E c \in C : ENABLED Drop(c) THEN MDrop
         ELSE IF ENABLED Accept THEN MAccept
         ELSE IF \E c \in C : ENABLED Ans(c) THEN \E c \in C : MAns(c)
         ELSE Clients
GSpec == MInit /\ [][GStep]_mvars
MView == <<vars, made>>
GView == vars
S == <<cf.lo, cf.hello, [c \in C |-> <<cn[c].st, cn[c].pr, cn[c].bad, cn[c].half, cn[c].left>>], q>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
