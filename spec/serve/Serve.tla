------------------------------- MODULE Serve --------------------------------
(* Accept loops: a server takes connections in the order they were made,     *)
(* serves at most so many at once and the next ones as soon as others leave. *)
(* Clients leave, are reset, stop sending, stall and send garbage whenever   *)
(* they like.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  cf,    \* [lo, hi: so many are served at once; hello: server speaks first]
         \* lo < hi when the limit is that of the operating system
  cn,    \* connections
  q      \* those not accepted yet
vars == <<cf, cn, q>>

Conn0 == [st |-> "no",     \* "no", "wait": to be accepted, "run": being served, "gone": no longer
          pr |-> 0,        \* requests to be answered
          bad |-> FALSE,   \* sent something else: no claims
          half |-> FALSE,  \* stopped sending
          left |-> FALSE]  \* client has left, which the server may not know yet
Run == {c \in DOMAIN cn : cn[c].st = "run"}

Conn(c) == /\ cn[c].st = "no"
           /\ cn' = [cn EXCEPT ![c].st = "wait", ![c].pr = IF cf.hello THEN 1 ELSE 0]
           /\ q' = Append(q, c) /\ UNCHANGED cf
Sends(c) == cn[c].st # "no" /\ ~cn[c].left /\ ~cn[c].half
Probe(c) == /\ Sends(c) /\ cn' = [cn EXCEPT ![c].pr = @ + 1] /\ UNCHANGED <<cf, q>>
Bad(c) == /\ Sends(c) /\ cn' = [cn EXCEPT ![c].bad = TRUE] /\ UNCHANGED <<cf, q>>
Half(c) == /\ Sends(c) /\ cn' = [cn EXCEPT ![c].half = TRUE] /\ UNCHANGED <<cf, q>>
Leave(c) == /\ cn[c].st # "no" /\ ~cn[c].left
            /\ cn' = [cn EXCEPT ![c].left = TRUE, ![c].pr = 0] /\ UNCHANGED <<cf, q>>

\* The server
Accept == /\ q # <<>> /\ Cardinality(Run) < cf.hi
          /\ cn' = [cn EXCEPT ![Head(q)].st = "run"] /\ q' = Tail(q) /\ UNCHANGED cf
Over(c) == cn[c].left \/ cn[c].bad \/ (cn[c].half /\ cn[c].pr = 0)
Drop(c) == /\ cn[c].st = "run" /\ Over(c)
           /\ cn' = [cn EXCEPT ![c].st = "gone"] /\ UNCHANGED <<cf, q>>
Ans(c) == /\ cn[c].st = "run" /\ cn[c].pr > 0
          /\ cn' = [cn EXCEPT ![c].pr = @ - 1] /\ UNCHANGED <<cf, q>>
\* The client sees that it is no longer served
Eof(c) == cn[c].st = "gone" /\ ~cn[c].left /\ UNCHANGED vars

\* Nothing is left to do
Done(c) == LET p == cn[c] IN
  p.st = "run" => /\ ~p.left
                  /\ ~p.bad => p.pr = 0 /\ ~p.half
AllDone == /\ \A c \in DOMAIN cn : Done(c)
           /\ q # <<>> => Cardinality(Run) >= cf.lo
Quiet == AllDone /\ UNCHANGED vars
=============================================================================
