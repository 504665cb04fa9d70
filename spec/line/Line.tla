-------------------------------- MODULE Line --------------------------------
(* The line oriented servers: raw sockets and telnet.  A connection is a     *)
(* stream of bytes of which the server executes the terminated lines, in     *)
(* order and under lock control, and sends back the responses.  How the      *)
(* stream is cut into reads makes no difference, so the specification takes  *)
(* the bytes as they come (Feed); only the execution of a line may have to   *)
(* wait (Exec).                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, LockOps

VARIABLES
  cf,    \* per server: [tel: telnet?, rt, wt: terminators, of a raw server]
  cn,    \* connections, see Conn0
  lock,  \* the lock of the device
  held   \* somebody else is using the device
vars == <<cf, cn, lock, held>>

\* Telnet
IAC == 255  DONT == 254  DO == 253  WONT == 252  WILL == 251  SB == 250  EL == 248  EC == 247  SE == 240
LF == 10  CR == 13
ECHO == 1
Supported == {0, 1, 3}    \* binary, echo, suppress go ahead
Neg(v, o) == 1000 * v + o

\* State of the separation of data and commands: 0 data, 1 command, 2 parameters, 3 command in
\* parameters, 251..254 negotiation
Conn0 == [up |-> "no",     \* "no", "up", "half": client stopped sending, "gone", "done": served
          inp |-> <<>>,    \* not looked at yet
          st |-> 0,
          cmd |-> <<>>,    \* line so far
          nl |-> FALSE,    \* it is complete and waits to be executed
          on |-> {},       \* options in effect
          was |-> {},      \* options the client may think it has in effect
          out |-> <<>>]    \* to be received by the client

\* Data byte b
Data(tel, rt, p, b) ==
  LET q == IF tel /\ ECHO \in p.on THEN [p EXCEPT !.out = Append(@, b)] ELSE p IN
  IF b = (IF tel THEN LF ELSE rt)
  THEN [q EXCEPT !.nl = TRUE,
                 !.cmd = IF tel /\ @ # <<>> /\ @[Len(@)] = CR THEN SubSeq(@, 1, Len(@) - 1) ELSE @]
  ELSE [q EXCEPT !.cmd = Append(@, b)]

\* Negotiation: agreed and refused at most once, so that there are no loops
Negotiated(p, v, o) ==
  CASE v = DO -> IF o \notin Supported THEN [p EXCEPT !.out = Append(@, Neg(WONT, o))]
                 ELSE IF o \in p.on THEN p
                 ELSE [p EXCEPT !.on = @ \cup {o}, !.was = @ \cup {o}, !.out = Append(@, Neg(WILL, o))]
    [] v = DONT -> IF o \in p.on THEN [p EXCEPT !.on = @ \ {o}, !.out = Append(@, Neg(WONT, o))] ELSE p
    [] v = WILL -> [p EXCEPT !.out = Append(@, Neg(DONT, o))]
    [] v = WONT -> IF o \in p.was THEN [p EXCEPT !.was = @ \ {o}, !.out = Append(@, Neg(DONT, o))] ELSE p

Telnet(rt, p, b) ==
  CASE p.st = 0 -> IF b = IAC THEN [p EXCEPT !.st = 1] ELSE Data(TRUE, rt, p, b)
    [] p.st = 1 -> IF b = IAC THEN Data(TRUE, rt, [p EXCEPT !.st = 0], b)
                   ELSE IF b \in WILL..DONT THEN [p EXCEPT !.st = b]
                   ELSE IF b = SB THEN [p EXCEPT !.st = 2]
                   ELSE IF b = EC THEN [p EXCEPT !.st = 0, !.cmd = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
                   ELSE IF b = EL THEN [p EXCEPT !.st = 0, !.cmd = <<>>]
                   ELSE [p EXCEPT !.st = 0]
    [] p.st = 2 -> IF b = IAC THEN [p EXCEPT !.st = 3] ELSE p
    [] p.st = 3 -> IF b = SE THEN [p EXCEPT !.st = 0] ELSE [p EXCEPT !.st = 2]
    [] OTHER -> Negotiated([p EXCEPT !.st = 0], p.st, b)

Byte(f, p, b) == IF f.tel THEN Telnet(f.rt, p, b) ELSE Data(FALSE, f.rt, p, b)

\* Everything up to the next complete line
RECURSIVE Eat(_, _)
Eat(f, p) == IF p.nl \/ p.inp = <<>> THEN p
             ELSE Eat(f, Byte(f, [p EXCEPT !.inp = Tail(@)], Head(p.inp)))

Set(c, p) == cn' = [cn EXCEPT ![c] = p]

Conn(c) == /\ cn[c].up = "no" /\ Set(c, [Conn0 EXCEPT !.up = "up"]) /\ UNCHANGED <<cf, lock, held>>

Feed(c, bs) ==
  /\ cn[c].up = "up"
  /\ Set(c, Eat(cf[c], [cn[c] EXCEPT !.inp = @ \o bs]))
  /\ UNCHANGED <<cf, lock, held>>

\* The line is executed, giving the response r (if s)
Exec(c, line, s, r) ==
  /\ cn[c].up \in {"up", "half", "gone"} /\ cn[c].nl /\ cn[c].cmd = line
  /\ CanUse(lock, c) /\ ~held
  /\ LET more == IF ~s THEN <<>> ELSE IF cf[c].tel THEN r \o <<CR, LF>> ELSE Append(r, cf[c].wt) IN
     Set(c, Eat(cf[c], [cn[c] EXCEPT !.nl = FALSE, !.cmd = <<>>, !.out = @ \o more]))
  /\ UNCHANGED <<cf, lock, held>>

\* The client receives; numbers: data bytes or negotiations; prompts are not specified
Out(c, bs) ==
  /\ Len(bs) <= Len(cn[c].out) /\ bs = SubSeq(cn[c].out, 1, Len(bs))
  /\ Set(c, [cn[c] EXCEPT !.out = SubSeq(@, Len(bs) + 1, Len(@))])
  /\ UNCHANGED <<cf, lock, held>>

\* The client stops sending, or goes away altogether
Half(c) == cn[c].up = "up" /\ Set(c, [cn[c] EXCEPT !.up = "half"]) /\ UNCHANGED <<cf, lock, held>>
Gone(c) == /\ cn[c].up \in {"up", "half", "done"}
           /\ Set(c, [cn[c] EXCEPT !.up = IF @ = "done" THEN @ ELSE "gone", !.out = <<>>])
           /\ UNCHANGED <<cf, lock, held>>
\* The session ends, when everything is executed, or nobody is interested in it any more
Done(c) == /\ cn[c].up = "gone" \/ (cn[c].up = "half" /\ ~cn[c].nl /\ cn[c].inp = <<>>)
           /\ Set(c, [cn[c] EXCEPT !.up = "done", !.out = IF cn[c].up = "gone" THEN <<>> ELSE @])
           /\ UNCHANGED <<cf, lock, held>>

\* Others lock and use the device
XAcq(x, k, r) == /\ r = AcqRes(lock, x, k) /\ lock' = (IF r = "ok" THEN Acq(lock, x, k) ELSE lock)
                 /\ UNCHANGED <<cf, cn, held>>
XRel(x, r) == /\ r = RelRes(lock, x) /\ lock' = Rel(lock, x) /\ UNCHANGED <<cf, cn, held>>
Hold == ~held /\ held' = TRUE /\ UNCHANGED <<cf, cn, lock>>
Unhold == held /\ held' = FALSE /\ UNCHANGED <<cf, cn, lock>>

\* At rest: nothing is left to do for connection c
AtRest(c) ==
  LET p == cn[c] IN
  CASE p.up = "no" -> TRUE
    [] p.up = "done" -> p.out = <<>>
    [] OTHER -> /\ p.nl => ~CanUse(lock, c) \/ held
                /\ p.out = <<>> \/ p.up = "gone"
                /\ p.up \in {"half", "gone"} => p.nl
\* Some clients (slow) do not receive what is sent to them
Quiet(slow) == (\A c \in DOMAIN cn : c \in slow \/ AtRest(c)) /\ UNCHANGED vars
=============================================================================
