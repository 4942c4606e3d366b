------------------------------- MODULE RmtGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, cfg
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ cfg = [kind |-> ""]
Choose == /\ cfg.kind = "" /\ hist' = <<>> /\ done' = FALSE
          /\ \E k \in {Pick({"RMTB", "RMTC"})} : \E n \in {Pick({1, 1, 2, 2, 3})} : \E o1 \in {Pick(2..5)} : \E o2 \in {Pick(2..4)} : \E c1 \in {Pick(0..5)} : \E c2 \in {Pick(0..3)} :
             \E p \in {Pick({2, 2, 4})} : \E e \in {Pick({-8, -4, -2, 0, 1})} : \E me \in {Pick({TRUE, TRUE, TRUE, FALSE})} : \E g \in {Pick({TRUE, FALSE})} : \E gw \in {Pick({10, 50, 200})} :
             \E l \in {Pick(1..4)} : \E y \in {Pick({1, 1, 2})} : \E x \in BOOLEAN : \E s \in {Pick(1..999)} : \E sm \in {Pick({0, 0, 1})} : \E so \in {Pick({"lu", "lu", "krylov"})} :
             cfg' = [kind |-> k, nx |-> n, order |-> <<o1, o2, 3>>, extra |-> <<c1, c2, 1>>, p |-> p, ew |-> e, energy |-> me, grad |-> g, gw |-> gw, lim |-> l, ny |-> y,
                     extrap |-> x, seed |-> s, smooth |-> sm, solver |-> so]
Step == /\ cfg.kind # "" /\ Len(hist) < Depth /\ done' = FALSE /\ cfg' = cfg
        /\ \E w \in {Pick(1..15)} : \E k \in {Pick(1..cfg.nx)} : \E s \in {Pick(1..999)} :
           hist' = Append(hist, [op |-> CASE w <= 2 -> "poly" [] w <= 5 -> "joint" [] w <= 7 -> "optimal" [] w <= 10 -> "outside" [] w = 11 -> "constant" [] w = 12 -> "ridge" [] w = 13 -> "edge" [] w = 14 -> "refuse" [] OTHER -> "fit",
                                 k |-> k, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ cfg' = cfg
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, cfg>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([cfg |-> cfg, walk |-> hist]))
=============================================================================
