-------------------------- MODULE TrainingData --------------------------
(* C02.  The training data of one surrogate: a store indexed by data group *)
(* and slot (0: values, k: derivatives with respect to input k).           *)
(* An array is [id, rows, cols, ok]: id names its contents, ok says it is  *)
(* an array of rank 1 or 2.  A model is [nx, td]: number of inputs, and    *)
(* whether training derivatives are supported.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Groups, MaxOps, Rows, Cols, MaxNx

Slot(g, k) == <<g, k>>
Empty == [p \in {} |-> 0]
Has(st, g, k) == Slot(g, k) \in DOMAIN st
Put(st, g, k, x, y) == [p \in DOMAIN st \cup {Slot(g, k)} |-> IF p = Slot(g, k) THEN [x |-> x, y |-> y] ELSE st[p]]

No(st) == [st |-> st, res |-> "rejected"]
Yes(st) == [st |-> st, res |-> "ok"]

Step(m, st, e) ==
    CASE e.op = "setv" -> IF e.x.ok /\ e.y.ok /\ e.x.rows = e.y.rows THEN Yes(Put(st, e.g, 0, e.x, e.y)) ELSE No(st)
      [] e.op = "updv" -> IF e.y.ok /\ Has(st, e.g, 0) /\ st[Slot(e.g, 0)].x.rows = e.y.rows
                          THEN Yes(Put(st, e.g, 0, st[Slot(e.g, 0)].x, e.y)) ELSE No(st)
      [] e.op = "setd" -> IF m.td /\ e.x.ok /\ e.y.ok /\ e.x.rows = e.y.rows /\ e.k \in 1..m.nx
                          THEN Yes(Put(st, e.g, e.k, e.x, e.y)) ELSE No(st)
      [] e.op = "updd" -> IF m.td /\ e.y.ok /\ e.k \in 1..m.nx /\ Has(st, e.g, e.k) /\ st[Slot(e.g, e.k)].x.rows = e.y.rows
                          THEN Yes(Put(st, e.g, e.k, st[Slot(e.g, e.k)].x, e.y)) ELSE No(st)
      [] OTHER -> Yes(st)        \* "scribble" (the caller overwrites its own arrays), "train", "predict"

(* ---- bounded model *)
VARIABLES model, st, n
Arr(i) == [id : {i}, rows : Rows, cols : Cols, ok : BOOLEAN]
Init == model \in [nx : 1..MaxNx, td : BOOLEAN] /\ st = Empty /\ n = 0
Op(i) ==
       [op : {"setv"}, g : Groups, x : Arr(2*i), y : Arr(2*i+1)]
  \cup [op : {"updv"}, g : Groups, y : Arr(2*i+1)]
  \cup [op : {"setd"}, g : Groups, k : 0..(MaxNx+1), x : Arr(2*i), y : Arr(2*i+1)]
  \cup [op : {"updd"}, g : Groups, k : 0..(MaxNx+1), y : Arr(2*i+1)]
Next == n < MaxOps /\ n' = n + 1 /\ model' = model /\ \E e \in Op(n) : st' = Step(model, st, e).st
Spec == Init /\ [][Next]_<<model, st, n>>

RowsAgree == \A p \in DOMAIN st : st[p].x.ok /\ st[p].y.ok /\ st[p].x.rows = st[p].y.rows
OnlySupported == \A p \in DOMAIN st : p[2] = 0 \/ (model.td /\ p[2] \in 1..model.nx)
NothingForgotten == [][DOMAIN st \subseteq DOMAIN st']_<<model, st, n>>
OneSlotAtATime == [][Cardinality({p \in DOMAIN st' : p \notin DOMAIN st \/ st[p] # st'[p]}) <= 1]_<<model, st, n>>
=========================================================================
