----------------------------- MODULE Replay -----------------------------
(* Generic trace validator.  A trace is [cfg |-> .., ev |-> <<e1, e2..>>]: *)
(* a configuration and the events recorded from the real code.  Start(cfg) *)
(* is the specification's initial state for that configuration and         *)
(* Apply(cfg, s, e) is                                                     *)
(*    [st |-> the specification's next state, bad |-> the broken clauses]  *)
(* so the verdict is total: every event is judged, whatever failed before. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Traces, Start(_), Apply(_, _, _)
VARIABLES t, l, st, bad

vars == <<t, l, st, bad>>

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = Start(Traces[t].cfg)
        /\ bad = {}

Next == /\ l <= Len(Traces[t].ev)
        /\ LET r == Apply(Traces[t].cfg, st, Traces[t].ev[l])
           IN  /\ st' = r.st
               /\ bad' = bad \cup {<<l, c>> : c \in r.bad}
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars

(* side effect only: one verdict line per trace, printed in its last state *)
Report == (l > Len(Traces[t].ev)) => PrintT("VERDICT " \o ToJson([t |-> t, bad |-> bad]))
=========================================================================
