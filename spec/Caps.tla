------------------------------- MODULE Caps -------------------------------
(* C10.  Capabilities.  A request for a capability is refused with         *)
(* NotImplementedError exactly when the model does not declare it; an input *)
(* index out of range is refused; an option set a declared capability      *)
(* excludes (kernels without derivatives ...) is refused, not answered;    *)
(* everything else is answered with one row per point and one column per    *)
(* output.  A refused request changes nothing.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the capability a request needs *)
Needs(op) == CASE op = "settd" -> "training_derivatives" [] op = "updtd" -> "training_derivatives"
               [] op = "der" -> "derivatives" [] op = "od" -> "output_derivatives"
               [] op = "var" -> "variances" [] op = "vd" -> "variance_derivatives"
Indexed(op) == op \in {"settd", "updtd", "der"}
InRange(k, nx) == 0 <= k /\ k < nx

(* outcome allowed for a request: declared?, usable with these options?,    *)
(* index, valid data, was set before (for updates) *)
Outcome(declared, usable, op, k, nx, prior) ==
    IF ~declared THEN {"NotImplementedError"}
    ELSE IF Indexed(op) /\ ~InRange(k, nx) THEN {"ValueError", "IndexError", "KeyError"}
    ELSE IF op = "updtd" /\ ~prior THEN {"ValueError", "KeyError"}
    ELSE IF ~usable THEN {"ValueError", "NotImplementedError"}
    ELSE {"ok"}

(* ---- bounded model: one model object, every declaration and request *)
CONSTANTS NX
VARIABLES declared, usable, store, last
vars == <<declared, usable, store, last>>
Ops == {"settd", "updtd", "der", "od", "var", "vd"}
Init == /\ declared \in SUBSET Ops /\ usable \in SUBSET Ops
        /\ store = {} /\ last = [op |-> "none", out |-> "ok", before |-> {}]
Request(op, k) ==
    \E o \in Outcome(op \in declared, op \in usable, op, k, NX, k \in store) :
        /\ store' = IF o = "ok" /\ op = "settd" THEN store \cup {k} ELSE store
        /\ last' = [op |-> op, out |-> o, before |-> store]
        /\ UNCHANGED <<declared, usable>>
Next == \E op \in Ops : \E k \in 0..NX : Request(op, k)
Spec == Init /\ [][Next]_vars
RefusedChangesNothing == last.out # "ok" => store = last.before
NothingOutOfRange == \A k \in store : k < NX
UndeclaredNeverAnswered == last.op \in Ops /\ last.op \notin declared => last.out = "NotImplementedError"
=========================================================================
