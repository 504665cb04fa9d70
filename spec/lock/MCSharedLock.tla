--------------------------- MODULE MCSharedLock ---------------------------
EXTENDS SharedLock
\* Process p only uses handle p, as a client does; process 3 shares handle 2
MCOps(p) == {o \in Ops : o.h = IF p = 3 THEN 2 ELSE p}
MCNext ==
  \/ \E h \in Handles : New(h)
  \/ \E p \in Procs :
       \/ \E o \in MCOps(p) :
            /\ dev = p => o.k # "lock"
            /\ o.k = "drop" => \A q \in Procs : op[q].h # o.h /\ dev # q
            /\ \A q \in Procs : op[q].k = "drop" => op[q].h # o.h
            /\ Invoke(p, o)
       \/ /\ dev = p
          /\ \E h \in alive : Invoke(p, [k |-> "unlock", h |-> h, key |-> 0, w |-> FALSE])
       \/ Lin(p)
       \/ Return(p)
       \/ Cancel(p)
MCSpec == Init /\ [][MCNext]_vars
MCFair == MCSpec /\ \A p \in Procs : WF_vars(Lin(p)) /\ WF_vars(Return(p))
=============================================================================
