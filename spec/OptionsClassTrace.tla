------------------------ MODULE OptionsClassTrace ------------------------
(* C01 on the public classes: constructing an object declares its options  *)
(* and then applies the keyword arguments as one update; assigning an      *)
(* option afterwards follows the same rule.  For every listed option the   *)
(* abstract values are "default", "good" (an accepted other value), "bad"  *)
(* (neither an allowed value nor an instance of an allowed type); the name *)
(* "zz_unknown" is never declared.                                         *)
EXTENDS Fx, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad

(* state: the value of every listed option, or "none" before construction *)
Names(cfg) == {cfg.names[i] : i \in 1..Len(cfg.names)}
None(cfg) == [n \in Names(cfg) |-> "none"]
Start(cfg) == None(cfg)

RECURSIVE Assign(_, _, _)
Assign(cfg, x, kvs) ==
    IF kvs = <<>> THEN [st |-> x, res |-> "ok"]
    ELSE LET h == Head(kvs)
         IN IF h.n \in Names(cfg) /\ h.v # "bad"
            THEN Assign(cfg, [x EXCEPT ![h.n] = h.v], Tail(kvs))
            ELSE [st |-> x, res |-> "rejected"]

Defaults(cfg) == [n \in Names(cfg) |-> "default"]

Step(cfg, x, e) ==
    IF e.op = "construct"
    THEN LET r == Assign(cfg, Defaults(cfg), e.kvs)
         IN IF r.res = "ok" THEN r ELSE [st |-> None(cfg), res |-> "rejected"]
    ELSE Assign(cfg, x, e.kvs)          \* "set" (one pair) or "update"

Apply(cfg, x, e) ==
    IF e.op = "Crash" THEN [st |-> x, bad |-> {"crash"}]
    ELSE LET r == Step(cfg, x, e)
         IN [st |-> r.st,
             bad |-> Clause((e.res = "ok") = (r.res = "ok"), e.op \o "-acceptance")
                \cup Clause(r.st = None(cfg) \/ e.vals = r.st, e.op \o "-values")]

R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
