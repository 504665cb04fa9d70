------------------------------- MODULE MCLine --------------------------------
(* All streams up to a length, in any order with locking and disconnecting,  *)
(* compared with what the stream as a whole means; and behaviours to replay. *)
EXTENDS Line, Integers, TLC
CONSTANTS Kinds,      \* of the connections
          Alphabet,   \* of the clients
          L,          \* bytes sent per connection
          NX          \* how often others lock, unlock or use the device
VARIABLES sent, ran, nx, lab
mvars == <<vars, sent, ran, nx, lab>>
C == DOMAIN Kinds

MInit == /\ cf = [c \in C |-> [tel |-> Kinds[c] = "tel", rt |-> 10, wt |-> 10]]
         /\ cn = [c \in C |-> [Conn0 EXCEPT !.up = "up"]]
         /\ lock = FreeLock /\ held = FALSE
         /\ sent = [c \in C |-> <<>>] /\ ran = [c \in C |-> <<>>] /\ nx = 0 /\ lab = <<>>

MFeed == \E c \in C, b \in Alphabet :
  /\ Len(sent[c]) < L /\ Feed(c, <<b>>)
  /\ sent' = [sent EXCEPT ![c] = Append(@, b)] /\ lab' = <<"feed", c, <<b>>>> /\ UNCHANGED <<ran, nx>>
Responses == {<<FALSE, <<>>>>, <<TRUE, <<255>>>>}
MExec == \E c \in C, r \in Responses :
  /\ Exec(c, cn[c].cmd, r[1], r[2])
  /\ ran' = [ran EXCEPT ![c] = Append(@, cn[c].cmd)] /\ lab' = <<>> /\ UNCHANGED <<sent, nx>>
MHalf == \E c \in C : Half(c) /\ lab' = <<"half", c>> /\ UNCHANGED <<sent, ran, nx>>
MGone == \E c \in C : cn[c].up # "done" /\ Gone(c) /\ lab' = <<"gone", c>> /\ UNCHANGED <<sent, ran, nx>>
MDone == \E c \in C : cn[c].up # "done" /\ Done(c) /\ lab' = <<>> /\ UNCHANGED <<sent, ran, nx>>
X == {101, 102}
MX == /\ nx < NX /\ nx' = nx + 1 /\ UNCHANGED <<sent, ran>>
      /\ \/ \E x \in X, k \in {<<>>, <<65>>, <<66>>} :
              AcqRes(lock, x, k) = "ok" /\ XAcq(x, k, "ok") /\ lab' = <<"xacq", x - 100, k>>
         \/ \E x \in X : RelRes(lock, x) # "none" /\ XRel(x, RelRes(lock, x)) /\ lab' = <<"xrel", x - 100>>
         \/ Hold /\ lab' = <<"hold">>
         \/ Unhold /\ lab' = <<"unhold">>
MNext == MFeed \/ MExec \/ MHalf \/ MGone \/ MDone \/ MX
MSpec == MInit /\ [][MNext]_mvars

\* ------------------------------------------------------------------------
\* What a whole stream means.  Items: data bytes, -1: erase character, -2: erase line
MaxI(S) == CHOOSE i \in S : \A j \in S : j <= i
MinI(S) == CHOOSE i \in S : \A j \in S : i <= j
\* End of the parameters which begin at i: the first IAC SE at an even distance, 0 if there is none
RECURSIVE EndSub(_, _)
EndSub(s, i) == IF i + 1 > Len(s) THEN 0
                ELSE IF s[i] # 255 THEN EndSub(s, i + 1)
                ELSE IF s[i + 1] = 240 THEN i + 2
                ELSE EndSub(s, i + 2)
RECURSIVE Items(_, _)
Items(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 255 THEN <<s[i]>> \o Items(s, i + 1)
  ELSE IF i = Len(s) THEN <<>>
  ELSE CASE s[i + 1] = 255 -> <<255>> \o Items(s, i + 2)
         [] s[i + 1] = 247 -> <<-1>> \o Items(s, i + 2)
         [] s[i + 1] = 248 -> <<-2>> \o Items(s, i + 2)
         [] s[i + 1] \in 251..254 -> Items(s, i + 3)
         [] s[i + 1] = 250 -> (IF EndSub(s, i + 2) = 0 THEN <<>> ELSE Items(s, EndSub(s, i + 2)))
         [] OTHER -> Items(s, i + 2)
RECURSIVE Edit(_)
Edit(it) == IF it = <<>> THEN <<>>
            ELSE LET e == Edit(SubSeq(it, 1, Len(it) - 1))  z == it[Len(it)] IN
                 CASE z = -2 -> <<>>
                   [] z = -1 -> IF e = <<>> THEN <<>> ELSE SubSeq(e, 1, Len(e) - 1)
                   [] OTHER -> Append(e, z)
ButCR(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* Terminated pieces of a sequence
Ends(s) == {i \in DOMAIN s : s[i] = 10}
Nth(S, n) == CHOOSE i \in S : Cardinality({j \in S : j <= i}) = n
Piece(s, n) == SubSeq(s, IF n = 1 THEN 1 ELSE Nth(Ends(s), n - 1) + 1, Nth(Ends(s), n) - 1)
Lines(k, s) ==
  LET it == IF k = "tel" THEN Items(s, 1) ELSE s IN
  [n \in 1..Cardinality(Ends(it)) |-> IF k = "tel" THEN ButCR(Edit(Piece(it, n))) ELSE Piece(it, n)]

\* C23, C24: the terminated lines are executed, in order, each once
InOrder == \A c \in C : /\ Len(ran[c]) <= Len(Lines(Kinds[c], sent[c]))
                        /\ ran[c] = SubSeq(Lines(Kinds[c], sent[c]), 1, Len(ran[c]))
\* None is forgotten
Complete == \A c \in C : AtRest(c) /\ ~cn[c].nl /\ cn[c].up \in {"up", "half"} => ran[c] = Lines(Kinds[c], sent[c])
Finished == \A c \in C : cn[c].up = "done" /\ cn[c].inp = <<>> /\ ~cn[c].nl => ran[c] = Lines(Kinds[c], sent[c])
\* Only those who may use the device do
Entitled == [][\A c \in C : ran'[c] # ran[c] => (lock.x \in {0, c} /\ (lock.x = c \/ lock.sh \subseteq {c}) /\ ~held)]_mvars
\* Negotiation: answers alternate and there are no more of them than requests
Said(c) == SelectSeq(cn[c].out, LAMBDA t : t > 1000)
About(c, o) == SelectSeq(Said(c), LAMBDA t : t \in {Neg(251, o), Neg(252, o)})
NoLoops == \A c \in C :
  /\ Len(Said(c)) <= Cardinality({i \in DOMAIN sent[c] : sent[c][i] \in 251..254})
  /\ \A o \in Supported : \A i \in DOMAIN About(c, o) : About(c, o)[i] = Neg(IF i % 2 = 1 THEN 251 ELSE 252, o)
\* Nobody is left without service
Served == \A c \in C : cn[c].nl /\ lock = FreeLock /\ ~held /\ cn[c].up # "done" => ENABLED MExec

\* Mutants
DataPops(tel, rt, p, b) ==      \* whatever is last is taken for the carriage return
  IF b = (IF tel THEN LF ELSE rt)
  THEN [p EXCEPT !.nl = TRUE, !.cmd = IF @ # <<>> THEN SubSeq(@, 1, Len(@) - 1) ELSE @]
  ELSE [p EXCEPT !.cmd = Append(@, b)]
TelnetNoErase(rt, p, b) ==      \* two byte commands swallow another one
  CASE p.st = 0 -> IF b = IAC THEN [p EXCEPT !.st = 1] ELSE Data(TRUE, rt, p, b)
    [] p.st = 1 -> IF b = IAC THEN Data(TRUE, rt, [p EXCEPT !.st = 0], b) ELSE [p EXCEPT !.st = b]
    [] OTHER -> [p EXCEPT !.st = 0]
AlwaysAnswers(p, v, o) ==       \* agrees to what is already agreed
  CASE v = DO -> [p EXCEPT !.on = @ \cup {o}, !.out = Append(@, Neg(IF o \in Supported THEN WILL ELSE WONT, o))]
    [] v = DONT -> [p EXCEPT !.on = @ \ {o}, !.out = Append(@, Neg(WONT, o))]
    [] OTHER -> p

OneTel == <<"tel">>
OneRaw == <<"raw">>
Both == <<"tel", "raw">>
TelBytes == {97, 10, 13, 255, 247, 248, 253, 254, 1, 250, 240}
RawBytes == {97, 10, 13, 255}
NegBytes == {255, 251, 252, 253, 254, 1, 24}
FewBytes == {97, 10}

\* Behaviours to replay: without history, lines are executed as soon as possible
GFeed == \E c \in C, b \in Alphabet :
  /\ Len(cn[c].inp) < 2 /\ (Len(cn[c].cmd) < L \/ b \notin {97, 13}) /\ Feed(c, <<b>>)
  /\ Len(cn'[c].cmd) <= L + 1
  /\ lab' = <<"feed", c, <<b>>>> /\ UNCHANGED <<sent, ran, nx>>
GExec == \E c \in C : Exec(c, cn[c].cmd, FALSE, <<>>) /\ lab' = <<>> /\ UNCHANGED <<sent, ran, nx>>
GX == /\ UNCHANGED <<sent, ran, nx>> /\ NX > 0
      /\ \/ \E x \in X, k \in {<<>>, <<65>>} :
              AcqRes(lock, x, k) = "ok" /\ XAcq(x, k, "ok") /\ lab' = <<"xacq", x - 100, k>>
         \/ \E x \in X : RelRes(lock, x) # "none" /\ XRel(x, RelRes(lock, x)) /\ lab' = <<"xrel", x - 100>>
         \/ Hold /\ lab' = <<"hold">>
         \/ Unhold /\ lab' = <<"unhold">>
GStep == IF ENABLED GExec THEN GExec ELSE IF ENABLED MDone THEN MDone ELSE GFeed \/ MHalf \/ MGone \/ GX
GSpec == MInit /\ [][GStep]_mvars
NoOut(p) == [p EXCEPT !.out = <<>>]
GView == <<[c \in C |-> NoOut(cn[c])], lock, held>>
SC(p) == <<p.up, p.inp, p.st, p.cmd, p.nl, p.on, p.was>>
S == <<[c \in C |-> SC(cn[c])], lock.x, lock.sh, lock.key, held>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
