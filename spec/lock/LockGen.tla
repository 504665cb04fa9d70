------------------------------ MODULE LockGen ------------------------------
(* Behaviours of SharedLock for a single-threaded driver: one call at a      *)
(* time, everything that can be granted is granted before the next call.     *)
(* Every transition is printed, so that walks covering them can be replayed  *)
(* against the code.                                                         *)
EXTENDS SharedLock, TLC
CONSTANT HandleOf      \* handle used by each process
VARIABLE lab
gvars == <<vars, lab>>

b(x) == IF x THEN 1 ELSE 0
GInit == Init /\ lab = <<>>

GDrop(h) ==
  /\ h \in alive
  /\ \A q \in Procs : op[q].h # h /\ (dev = q => HandleOf[q] # h)
  /\ RelEffect(h) /\ alive' = alive \ {h}
  /\ UNCHANGED <<dev, procvars>>

GNext ==
  IF \E p \in Procs : pc[p] = "lin"
  THEN (\E p \in Procs : pc[p] = "lin" /\ Return(p)) /\ lab' = <<>>
  ELSE IF \E p \in Procs : pc[p] = "inv" /\ Answers(p) # {}
  THEN (\E p \in Procs : Lin(p)) /\ lab' = <<>>
  ELSE
    \/ \E h \in Handles : New(h) /\ lab' = <<"new", h>>
    \/ \E h \in Handles : GDrop(h) /\ lab' = <<"drop", h>>
    \/ \E p \in Procs, k \in Keys \cup {0}, w \in BOOLEAN :
         /\ dev # p
         /\ Invoke(p, [k |-> "acq", h |-> HandleOf[p], key |-> k, w |-> w])
         /\ lab' = <<"acq", p, HandleOf[p], k, b(w)>>
    \/ \E p \in Procs, w \in BOOLEAN :
         /\ dev # p
         /\ Invoke(p, [k |-> "lock", h |-> HandleOf[p], key |-> 0, w |-> w])
         /\ lab' = <<"lock", p, HandleOf[p], 0, b(w)>>
    \/ \E p \in Procs :
         /\ Invoke(p, [k |-> "rel", h |-> HandleOf[p], key |-> 0, w |-> FALSE])
         /\ lab' = <<"rel", p, HandleOf[p]>>
    \/ \E p \in Procs :
         /\ dev = p
         /\ Invoke(p, [k |-> "unlock", h |-> HandleOf[p], key |-> 0, w |-> FALSE])
         /\ lab' = <<"unlock", p>>
    \/ \E p \in Procs : Cancel(p) /\ lab' = <<"cancel", p>>

GSpec == GInit /\ [][GNext]_gvars

V == <<alive, excl, shared, key, dev, pc, op>>
\* Canonical text of a state: ToString does not normalise sets and records
S == <<[h \in Handles |-> h \in alive], excl, [h \in Handles |-> h \in shared], key, dev, pc,
       [p \in Procs |-> <<op[p].k, op[p].h, op[p].key, op[p].w>>]>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)

H1 == <<1, 2>>
H2 == <<1, 2, 3>>
H3 == <<1, 2, 2>>
=============================================================================
