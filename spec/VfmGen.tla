------------------------------ MODULE VfmGen ------------------------------
(* Random bridge configurations and what is done with them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES c, ops, done
Pick(S) == RandomElement(S)
Kinds == {"KRG", "LS", "QP", "KPLS", "KPLSK", "GEKPLS", "RBF", "RMTC", "RMTB", "IDW"}
Multi == {"KRG", "LS", "QP", "RBF", "IDW", "RMTB"}
ByDeriv == {"GEKPLS", "RMTB", "RMTC"}
Init == c = <<>> /\ ops = <<>> /\ done = FALSE
Choose == /\ c = <<>> /\ ops' = <<>> /\ done' = FALSE
   /\ \E ty \in {Pick({"Additive", "Multiplicative"})} : \E nx \in {Pick(1..3)} : \E ny \in {Pick(1..3)} : \E sh \in {Pick(1..3)} : \E s \in {Pick(1..1000)} :
      \E g \in {Pick(1..3)} : \E l \in {Pick(Kinds)} : \E b \in {Pick(Kinds)} : \E ml \in {Pick(Multi)} : \E mb \in {Pick(Multi)} : \E dl \in {Pick(ByDeriv)} : \E db \in {Pick(ByDeriv)} :
      \E fl \in {Pick({"absent", "no", "yes"})} : \E fb \in {Pick({"absent", "no", "yes"})} : \E cls \in {Pick(1..3)} :
      c' = <<[type |-> ty, nx |-> IF nx = 1 /\ (g = 3 \/ "GEKPLS" \in {l, b}) THEN 2 ELSE nx, ny |-> IF g = 2 /\ ny > 1 THEN 2 ELSE 1,
              lf |-> CASE g = 1 -> l [] g = 2 -> ml [] OTHER -> dl, b |-> CASE g = 1 -> b [] g = 2 -> mb [] OTHER -> db,
              dlf |-> IF g = 3 THEN fl ELSE IF fl = "yes" THEN "no" ELSE fl, db |-> IF g = 3 THEN fb ELSE IF fb = "yes" THEN "no" ELSE fb,
              shared |-> (sh = 1), byclass |-> (cls = 1), seed |-> s]>>
Op == /\ c # <<>> /\ ~done /\ Len(ops) < MaxOps
      /\ \E o \in {Pick({"values", "slopes", "allslopes", "one", "rebuild", "data"})} : \E s \in {Pick(1..1000)} : ops' = Append(ops, [op |-> o, seed |-> s])
      /\ UNCHANGED <<c, done>>
Finish == c # <<>> /\ ~done /\ Len(ops) = MaxOps /\ done' = TRUE /\ UNCHANGED <<c, ops>>
Next == Choose \/ Op \/ Finish
Spec == Init /\ [][Next]_<<c, ops, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([c |-> c[1], ops |-> ops]))
=========================================================================
