------------------------------ MODULE GennGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Vals == [gamma |-> {0, 50, 100}, lambd |-> {0, 10, 40}, alpha |-> {5, 30, 50}, beta1 |-> {50, 90}, beta2 |-> {90, 99}, deep |-> {1, 2, 3}, wide |-> {2, 5, 6},
         mini_batch_size |-> {3, 5, 64}, num_epochs |-> {1, 2, 3}, num_iterations |-> {5, 12}, seed |-> {0, 1, 7}]
Init == hist = <<>> /\ done = FALSE
SetData == \E s \in {Pick(1..5)} : \E y \in {Pick({1, 1, 2})} : \E d \in {Pick({0, 1, 1, 2})} : \E ux \in {Pick({1, 1, 2, 3})} : \E uy \in {Pick({1, 1, 2, 3, 4})} :
             hist' = Append(hist, [op |-> "data", set |-> s, out |-> y, der |-> d, ux |-> ux, uy |-> uy])
SetOpt == \E n \in {Pick(DOMAIN Vals)} : \E v \in {Pick(Vals[n])} : hist' = Append(hist, [op |-> "opt", name |-> n, val |-> v])
Gamma == \E v \in {Pick({0, 50, 100})} : hist' = Append(hist, [op |-> "opt", name |-> "gamma", val |-> v])
Train == hist' = Append(hist, [op |-> "train"])
Fresh == hist' = Append(hist, [op |-> "fresh"])
Pred == \E w \in {Pick({"all", "row", "outside"})} : \E n \in {Pick({1, 3})} : hist' = Append(hist, [op |-> "predict", which |-> w, n |-> n])
Step == /\ Len(hist) < Depth /\ done' = FALSE
        /\ \E w \in {Pick(1..12)} : IF hist = <<>> THEN SetData ELSE
              CASE w \in 1..2 -> SetData [] w = 3 -> SetOpt [] w = 4 -> Gamma [] w \in 5..7 -> Train [] w \in 8..9 -> Fresh [] OTHER -> Pred
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
