------------------------------- MODULE Mfk -------------------------------
(* C21.  Multi-fidelity kriging: levels 0, 1, ... (lowest first) and the     *)
(* top level; training takes the levels present without a gap, then the top. *)
(* Level i is rho(x) times level i-1 plus a discrepancy kriged at its data.  *)
EXTENDS Fx
CONSTANTS NLow, Vers

Top == NLow
(* data: function 0..NLow -> version (0: not given); NLow stands for the top *)
RECURSIVE LowsFrom(_, _)
LowsFrom(d, i) == IF i \in DOMAIN d /\ d[i] # 0 THEN <<d[i]>> \o LowsFrom(d, i + 1) ELSE <<>>
Levels(d, top) == LowsFrom(d, 0) \o <<top>>

(* value and variance of a level from the one below *)
Chain(rho, below, delta) == Mul(rho, below) + delta
ChainVar(rho2, below, own) == Mul(rho2, below) + own

VARIABLES low, top, model, log
vars == <<low, top, model, log>>
Init == low = [i \in 0..NLow - 1 |-> 0] /\ top = 0 /\ model = <<>> /\ log = <<>>
SetLow == \E i \in 0..NLow - 1, v \in Vers : low' = [low EXCEPT ![i] = v] /\ UNCHANGED <<top, model, log>>
SetTop == \E v \in Vers : top' = v /\ UNCHANGED <<low, model, log>>
Train == top # 0 /\ model' = Levels(low, top) /\ UNCHANGED <<low, top, log>>
Query == model # <<>> /\ log' = model /\ UNCHANGED <<low, top, model>>
Next == SetLow \/ SetTop \/ Train \/ Query
Spec == Init /\ [][Next]_vars
TopIsLast == model # <<>> => model[Len(model)] \in Vers /\ Len(model) <= NLow + 1
NoGap == \A i \in 1..Len(model) : model[i] # 0
OnlyTrainChanges == [][model' # model => model' = Levels(low, top)]_vars
=========================================================================
