----------------------------- MODULE Options -----------------------------
(* C01.  Options dictionaries: a declared name carries a rule (allowed     *)
(* values and/or types) and a value; two dictionaries, the second being a  *)
(* clone taken at some point.  An update is its assignments in order,      *)
(* stopping at the first one that is rejected.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Names,     \* option names used by the bounded model
          MaxUpd     \* longest update dictionary

(* the value universe: id -> type.  "bool" is also an instance of "int".   *)
Vals == [s1 |-> "str", s2 |-> "str", i7 |-> "int", f5 |-> "float", bt |-> "bool", none |-> "none", d1 |-> "dict"]
ValIds == DOMAIN Vals

(* rules: hv/ht say whether values/types were given *)
Rules == [ any  |-> [hv |-> FALSE, vs |-> {},           ht |-> FALSE, ts |-> {}],
           vals |-> [hv |-> TRUE,  vs |-> {"s1", "i7"}, ht |-> FALSE, ts |-> {}],
           typs |-> [hv |-> FALSE, vs |-> {},           ht |-> TRUE,  ts |-> {"int", "float"}],
           both |-> [hv |-> TRUE,  vs |-> {"s1"},       ht |-> TRUE,  ts |-> {"bool", "dict"}] ]
RuleIds == DOMAIN Rules

IsInst(v, ts) == Vals[v] \in ts \/ (Vals[v] = "bool" /\ "int" \in ts)

Valid(rule, v) ==
    LET r == Rules[rule]
        inV == r.hv /\ v \in r.vs
        inT == r.ht /\ IsInst(v, r.ts)
    IN  IF ~r.hv /\ ~r.ht THEN TRUE ELSE inV \/ inT

Absent == "absent"
Empty(names) == [n \in names |-> [rule |-> Absent, val |-> Absent]]
(* state: o1, o2 dictionaries; has2: the clone exists *)
Start0(names) == [o |-> <<Empty(names), Empty(names)>>, has2 |-> FALSE]

Dict(s, k) == s.o[k]
Declared(s, k, n) == s.o[k][n].rule # Absent
Put(s, k, n, rule, v) == [s EXCEPT !.o[k][n] = [rule |-> rule, val |-> v]]

(* ---- steps: [st, res] *)
DoDeclare(s, k, n, rule, v) == [st |-> Put(s, k, n, rule, v), res |-> "ok"]
DoSet(s, k, n, v) ==
    IF Declared(s, k, n) /\ Valid(s.o[k][n].rule, v)
    THEN [st |-> Put(s, k, n, s.o[k][n].rule, v), res |-> "ok"]
    ELSE [st |-> s, res |-> "rejected"]
RECURSIVE DoUpdate(_, _, _)
DoUpdate(s, k, kvs) ==
    IF kvs = <<>> THEN [st |-> s, res |-> "ok"]
    ELSE LET r == DoSet(s, k, kvs[1].n, kvs[1].v)
         IN  IF r.res = "ok" THEN DoUpdate(r.st, k, Tail(kvs)) ELSE r
DoGet(s, k, n) == [st |-> s, res |-> IF Declared(s, k, n) THEN "ok" ELSE "rejected",
                   out |-> s.o[k][n].val]
DoClone(s) == [st |-> [s EXCEPT !.o[2] = s.o[1], !.has2 = TRUE], res |-> "ok"]

Step(s, e) ==
    CASE e.op = "declare" -> DoDeclare(s, e.k, e.n, e.rule, e.v)
      [] e.op = "set"     -> DoSet(s, e.k, e.n, e.v)
      [] e.op = "update"  -> DoUpdate(s, e.k, e.kvs)
      [] e.op = "get"     -> DoGet(s, e.k, e.n)
      [] e.op = "clone"   -> DoClone(s)
      [] OTHER            -> [st |-> s, res |-> "ok"]

(* ---- enabled operations.  A default must satisfy its rule or be none. *)
Objs(s) == IF s.has2 THEN {1, 2} ELSE {1}
Updates == UNION {[1..m -> [n : Names, v : ValIds]] : m \in 1..MaxUpd}
DistinctNames(kvs) == \A i, j \in DOMAIN kvs : i # j => kvs[i].n # kvs[j].n
Ops(s) ==
       {[op |-> "declare", k |-> k, n |-> n, rule |-> r, v |-> v] :
            k \in Objs(s), n \in Names, r \in RuleIds, v \in ValIds} 
  \cup {[op |-> "set", k |-> k, n |-> n, v |-> v] : k \in Objs(s), n \in Names, v \in ValIds}
  \cup {[op |-> "get", k |-> k, n |-> n] : k \in Objs(s), n \in Names}
  \cup {[op |-> "update", k |-> k, kvs |-> u] : k \in Objs(s), u \in {u \in Updates : DistinctNames(u)}}
  \cup {[op |-> "clone"]}
OkOp(e) == e.op = "declare" => (e.v = "none" \/ Valid(e.rule, e.v))

VARIABLES s
Init == s = Start0(Names)
Next == \E e \in Ops(s) : OkOp(e) /\ s' = Step(s, e).st
Spec == Init /\ [][Next]_s

(* every stored value is the default none or satisfies its rule *)
StoredValid == \A k \in 1..2 : \A n \in Names :
    Declared(s, k, n) => s.o[k][n].val = "none" \/ Valid(s.o[k][n].rule, s.o[k][n].val)
(* a rejected set leaves the whole state unchanged *)
RejectedIsNoop == \A e \in Ops(s) : (e.op = "set" /\ Step(s, e).res = "rejected") => Step(s, e).st = s
(* names never disappear except when the clone slot is retaken *)
NamesPersist == [][\A n \in Names : Declared(s, 1, n) => s'.o[1][n].rule # Absent]_s
(* an operation on one dictionary never changes the other *)
Independent == \A e \in Ops(s) : e.op \in {"set", "update", "declare"} =>
    Step(s, e).st.o[3 - e.k] = s.o[3 - e.k]
=========================================================================
