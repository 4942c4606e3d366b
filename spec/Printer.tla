----------------------------- MODULE Printer -----------------------------
(* C23.  A printer writes while active, indented by its depth; timed and     *)
(* activity contexts nest and unwind, normally or by an exception.  A        *)
(* surrogate writes the sections its switches allow and nothing else.        *)
EXTENDS Fx
CONSTANTS Keys, MaxNest, MaxOps

Line(active, depth, maxdepth, text) == IF active /\ depth <= maxdepth THEN <<<<depth, text>>>> ELSE <<>>
(* sections written by an operation of a surrogate *)
Sections(op, g, problem, training, prediction) ==
    IF ~g THEN {} ELSE
    CASE op = "train" -> (IF problem THEN {"Problem size"} ELSE {}) \cup (IF training THEN {"Training"} ELSE {})
      [] op \in {"values", "derivatives"} -> IF prediction THEN {"Evaluation"} ELSE {}
      [] OTHER -> {}
(* nothing at all may be written *)
MustBeSilent(op, g, prediction) == ~g \/ op \notin {"train", "values", "derivatives", "vderivatives", "outputs"} \/ (op # "train" /\ ~prediction)

VARIABLES active, depth, times, stack, out, n
vars == <<active, depth, times, stack, out, n>>
Init == active = FALSE /\ depth = 1 /\ times = [k \in Keys |-> 0] /\ stack = <<>> /\ out = 0 /\ n = 0
Say == out' = (IF active THEN out + 1 ELSE out) /\ UNCHANGED <<active, depth, times, stack>>
Toggle == active' = ~active /\ UNCHANGED <<depth, times, stack, out>>
OpenTimed == /\ Len(stack) < MaxNest /\ \E k \in Keys : stack' = Append(stack, [kind |-> "timed", key |-> k, depth |-> depth, active |-> active])
             /\ depth' = depth + 1 /\ UNCHANGED <<active, times, out>>
OpenActive == /\ Len(stack) < MaxNest /\ \E b \in BOOLEAN : stack' = Append(stack, [kind |-> "active", key |-> CHOOSE k \in Keys : TRUE, depth |-> depth, active |-> active]) /\ active' = (active /\ b)
              /\ UNCHANGED <<depth, times, out>>
Top == stack[Len(stack)]
Close == /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ \E raised \in BOOLEAN :
            IF Top.kind = "timed" THEN depth' = depth - 1 /\ times' = (IF raised THEN times ELSE [times EXCEPT ![Top.key] = @ + 1]) /\ UNCHANGED active
            ELSE active' = Top.active /\ UNCHANGED <<depth, times>>
         /\ UNCHANGED out
Next == n < MaxOps /\ n' = n + 1 /\ (Say \/ Toggle \/ OpenTimed \/ OpenActive \/ Close)
Spec == Init /\ [][Next]_vars
DepthIsNesting == depth = 1 + Cardinality({i \in 1..Len(stack) : stack[i].kind = "timed"})
Unwinds == [][Len(stack') < Len(stack) /\ Top.kind = "timed" => depth' = Top.depth]_vars
Restores == [][Len(stack') < Len(stack) /\ Top.kind = "active" => active' = Top.active]_vars
SilentInactive == [][out' # out => active]_vars
=========================================================================
