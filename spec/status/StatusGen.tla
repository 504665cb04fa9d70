----------------------------- MODULE StatusGen -----------------------------
(* Behaviours for a single threaded driver, every transition printed *)
EXTENDS StatusBus, TLC
VARIABLE lab
Busy(p) == pc[p] \in {"pub", "lin"} \/ (pc[p] = "inv" /\ (op[p].k # "recv" \/ Ready(p)))
GInit == Init /\ lab = <<>>
GNext ==
  IF \E p \in Procs : Busy(p)
  THEN (\E p \in Procs : Internal(p) \/ Return(p)) /\ lab' = <<>>
  ELSE \E p \in Procs :
    \/ p = 1 /\ tx /\ Invoke(p, [k |-> "pub", r |-> 0, v |-> 1]) /\ lab' = <<"pub">>
    \/ p = 1 /\ Invoke(p, [k |-> "droptx", r |-> 0, v |-> 0]) /\ tx /\ lab' = <<"droptx">>
    \/ \E s \in Subs : /\ UsedBy(s) = {} /\ (s = p \/ (s = 3 /\ p = 1))
                       /\ \/ s \notin subs /\ queue[s] = <<>> /\ tx /\ Invoke(p, [k |-> "sub", r |-> s, v |-> 0]) /\ lab' = <<"sub", p, s>>
                          \/ s \in subs /\ \E k \in {"recv", "try", "close", "shut"} : Invoke(p, [k |-> k, r |-> s, v |-> 0]) /\ lab' = <<k, p, s>>
                          \/ s \notin subs /\ queue[s] # <<>> /\ Invoke(p, [k |-> "try", r |-> s, v |-> 0]) /\ lab' = <<"try", p, s>>
    \/ Cancel(p) /\ lab' = <<"cancel", p>>
GSpec == GInit /\ [][GNext]_<<vars, lab>>
V == <<subs, [s \in Subs |-> Len(queue[s])], tx, busy, todo, pc, op>>
Small == \A s \in Subs : Len(queue[s]) <= Room
S == <<[s \in Subs |-> s \in subs], [s \in Subs |-> Len(queue[s])], tx, busy,
       [s \in Subs |-> s \in todo], pc, [p \in Procs |-> <<op[p].k, op[p].r>>]>>
Edge == PrintT(<<"EDGE", ToString(S), lab', ToString(S')>>)
=============================================================================
