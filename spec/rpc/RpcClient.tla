------------------------------ MODULE RpcClient ------------------------------
(* A client of the port mapper (and with it the RPC clients, over a stream   *)
(* or datagrams) against a peer which may send anything.  Some operations    *)
(* consist of several calls; a call is answered by the first reply which     *)
(* carries its transaction identifier, everything else is ignored.           *)
EXTENDS Naturals, Sequences

VARIABLES pend,  \* <<>> or <<[op, a: arguments, i: which call, x: identifier or "", got: values so far]>>
          net,   \* messages on their way to the client
          xs,    \* identifiers used
          open,  \* peer still there
          done   \* <<>> or <<result>>
vars == <<pend, net, xs, open, done>>

Init0 == pend = <<>> /\ net = <<>> /\ xs = {} /\ open = TRUE /\ done = <<>>

\* The calls an operation consists of: procedure and arguments
Core == 395183
Async == 395184
Reqs(op, a) ==
  CASE op = "null" -> << <<0, <<>>>> >>
    [] op = "set" -> << <<1, a>> >>
    [] op = "unset" -> << <<2, a>> >>
    [] op = "getport" -> << <<3, a>> >>
    [] op = "callit" -> << <<5, a>> >>
    [] op = "register" -> << <<2, a>>, <<1, a>> >>
    [] op = "regpm" -> << <<1, <<Core, 1, 6, a[1]>>>>, <<1, <<Async, 1, 6, a[2]>>>> >>
Last(p) == p.i = Len(Reqs(p.op, p.a))

Ok(v) == [k |-> "ok", v |-> v]
Err(k) == [k |-> k, v |-> <<>>]
Any == "any"

\* What the client makes of a reply to its call: a set of possible results
\* (values outside their range may be refused or not)
Decode(op, m) ==
  IF m.k = "ok" THEN
    CASE op = "null" -> {Ok(<<>>)}
      [] op = "callit" -> IF Len(m.v) = 2 THEN {Ok(m.v)} ELSE {Err(Any)}
      [] m.v = <<>> -> {Err(Any)}
      [] op = "getport" -> IF m.v[1] < 65536 THEN {Ok(<<m.v[1]>>)} ELSE {Ok(<<m.v[1] % 65536>>), Err(Any)}
      [] OTHER -> IF m.v[1] \in {0, 1} THEN {Ok(<<m.v[1]>>)} ELSE {Ok(<<1>>), Err(Any)}
  ELSE IF m.k = "cut" THEN (IF op = "null" THEN {Ok(<<>>), Err(Any)} ELSE {Err(Any)})
  ELSE IF m.k \in {"mism", "rpcv"} THEN {[k |-> m.k, v |-> m.v]}
  ELSE IF m.k \in {"prog", "proc", "garb", "sys", "auth"} THEN {Err(m.k)}
  ELSE {Err(Any)}     \* "bad": not a proper reply

Invoke(op, a) ==
  /\ pend = <<>> /\ done = <<>>
  /\ pend' = <<[op |-> op, a |-> a, i |-> 1, x |-> "", got |-> <<>>]>>
  /\ UNCHANGED <<net, xs, open, done>>

Saw(x, pr, args) ==
  /\ pend # <<>> /\ done = <<>> /\ pend[1].x = "" /\ x \notin xs
  /\ Reqs(pend[1].op, pend[1].a)[pend[1].i] = <<pr, args>>
  /\ xs' = xs \cup {x}
  /\ pend' = <<[pend[1] EXCEPT !.x = x]>>
  /\ UNCHANGED <<net, open, done>>

Put(m) ==
  /\ open /\ net' = Append(net, m)
  /\ UNCHANGED <<pend, xs, open, done>>

Close ==
  /\ open /\ open' = FALSE
  /\ UNCHANGED <<pend, net, xs, done>>

Answers(m, x) == m.x = x /\ m.k # "call"

Finish(r) == done' = <<r>> /\ UNCHANGED <<pend, xs, open>>

\* The next message is looked at
Take ==
  /\ pend # <<>> /\ pend[1].x # "" /\ done = <<>> /\ net # <<>>
  /\ net' = Tail(net)
  /\ LET m == Head(net)  p == pend[1] IN
     IF m.k = "tiny"    \* has no identifier
     THEN UNCHANGED <<pend, xs, open, done>> \/ Finish(Err(Any))
     ELSE IF m.k = "call" /\ m.x = p.x
     THEN UNCHANGED <<pend, xs, open, done>> \/ Finish(Err(Any))
     ELSE IF ~Answers(m, p.x)
     THEN UNCHANGED <<pend, xs, open, done>>
     ELSE \E r \in Decode(p.op, m) :
          IF r.k # "ok" THEN Finish(r)
          ELSE IF ~Last(p) /\ ~(p.op = "register" /\ r.v = <<0>>)
          THEN /\ pend' = <<[p EXCEPT !.i = @ + 1, !.x = "", !.got = Append(@, r.v)]>>
               /\ UNCHANGED <<xs, open, done>>
          ELSE CASE p.op = "register" -> Finish(IF r.v = <<0>> THEN Err(Any) ELSE Ok(<<>>))
                 [] p.op = "regpm" -> Finish(IF r.v = <<0>> \/ p.got[1] = <<0>> THEN Err(Any) ELSE Ok(<<>>))
                 [] OTHER -> Finish(r)

\* Nothing more to come
Lost ==
  /\ pend # <<>> /\ done = <<>> /\ ~open /\ (net = <<>> \/ pend[1].x = "")
  /\ Finish(Err(Any)) /\ UNCHANGED net

Res(k, v) ==
  /\ done # <<>> /\ pend # <<>>
  /\ IF done[1].k = Any THEN k # "ok" ELSE k = done[1].k /\ v = done[1].v
  /\ pend' = <<>> /\ done' = <<>>
  /\ UNCHANGED <<net, xs, open>>

Internal == Take \/ Lost
=============================================================================
