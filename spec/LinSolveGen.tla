---------------------------- MODULE LinSolveGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, solver
Pick(S) == RandomElement(S)
Solvers == <<"dense-lu", "dense-chol", "lu", "krylov", "krylov-dense", "krylov-lu", "krylov-mg", "krylov-ilu", "krylov-gs", "krylov-jacobi", "krylov-bicgstab", "krylov-gmres",
             "gs", "gs-damped", "jacobi", "mg-gs", "mg-jacobi", "mg-krylov", "mg-clone", "lu-get", "krylov-get", "krylov-mgsmooth">>
Init == hist = <<>> /\ done = FALSE /\ solver = ""
Choose == solver = "" /\ \E i \in {Pick(1..22)} : solver' = Solvers[i] /\ hist' = <<>> /\ done' = FALSE
Step == /\ solver # "" /\ Len(hist) < Depth /\ done' = FALSE /\ solver' = solver
        /\ \E w \in {Pick(1..4)} : \E n \in {Pick({1, 2, 3, 5, 7})} : \E s \in {Pick(1..999)} : \E f \in {Pick({"none", "vec", "vec", "col", "fcol", "strided", "multi"})} :
           \E g \in {Pick({"zero", "random", "rhs"})} : \E m \in {Pick({"spd", "general", "laplace"})} :
           hist' = Append(hist, IF hist = <<>> \/ w = 1 THEN [op |-> "setup", n |-> n, mat |-> m, seed |-> s]
                                ELSE [op |-> "solve", form |-> f, guess |-> g, seed |-> s])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ hist' = hist /\ solver' = solver
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, solver>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([solver |-> solver, walk |-> hist]))
=============================================================================
