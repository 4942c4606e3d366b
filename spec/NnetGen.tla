------------------------------ MODULE NnetGen ------------------------------
(* Random optimiser sessions, networks and mini-batch requests. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, done, kind
Pick(S) == RandomElement(S)
Init == hist = <<>> /\ done = FALSE /\ kind = ""
Choose == kind = "" /\ \E k \in {Pick({"opt", "opt", "grad", "grad", "batch", "model"})} : kind' = k /\ hist' = <<>> /\ done' = FALSE
Opt == kind = "opt" /\ \E a \in {Pick({"GD", "Adam", "Adam"})} : \E f \in {Pick({"quad", "rosen", "quartic", "valley"})} : \E g \in {Pick({"given", "given", "fd"})} :
         \E r \in {Pick({1, 5, 10, 20, 100})} : \E b \in {Pick({0, 50, 90})} : \E c \in {Pick({50, 90, 99})} : \E n \in {Pick({1, 2, 7, 25})} : \E s \in {Pick(1..999)} :
         \E again \in {Pick({0, 0, 3})} :
           hist' = <<[alg |-> a, fun |-> f, grad |-> g, lr |-> r, b1 |-> b, b2 |-> c, iters |-> n, seed |-> s, again |-> again]>>
Grd == kind = "grad" /\ \E nx \in {Pick({1, 2, 3, 5})} : \E ny \in {Pick({1, 2, 3})} : \E d \in {Pick({0, 1, 2, 3})} : \E w \in {Pick({1, 2, 4, 6})} : \E m \in {Pick({1, 2, 5, 9})} :
         \E a \in {Pick({"tanh", "tanh", "sigmoid", "mixed", "linear"})} : \E l \in {Pick({0, 10, 500})} : \E g \in {Pick({-1, 0, 30, 100})} : \E s \in {Pick(1..999)} : \E o \in {Pick({"C", "F"})} :
           hist' = <<[nx |-> nx, ny |-> ny, deep |-> d, wide |-> w, m |-> m, act |-> a, lambd |-> l, gamma |-> g, seed |-> s, order |-> o]>>
Bat == kind = "batch" /\ \E m \in {Pick(1..20)} : \E z \in {Pick(1..22)} : \E nx \in {Pick(1..3)} : \E ny \in {Pick(1..3)} : \E j \in {Pick({TRUE, FALSE})} : \E s \in {Pick(0..99)} :
         \E sd \in {Pick({TRUE, FALSE})} :
           hist' = <<[m |-> m, size |-> z, nx |-> nx, ny |-> ny, jac |-> j, seed |-> s, seeded |-> sd]>>
Mod == kind = "model" /\ \E nx \in {Pick({1, 2, 3})} : \E ny \in {Pick({1, 2, 3})} : \E d \in {Pick({1, 2})} : \E w \in {Pick({2, 5})} : \E m \in {Pick({2, 5, 12})} : \E j \in {Pick({TRUE, FALSE})} :
         \E z \in {Pick({0, 1, 3, 5})} : \E e \in {Pick({1, 2, 3})} : \E g \in {Pick({0, 50, 100})} : \E k \in {Pick({"plain", "big", "small", "offset", "constx", "consty"})} : \E s \in {Pick(1..999)} :
           hist' = <<[nx |-> nx, ny |-> ny, deep |-> d, wide |-> w, m |-> m, jac |-> j, batch |-> z, epochs |-> e, gamma |-> g, data |-> k, seed |-> s]>>
Step == kind # "" /\ hist = <<>> /\ kind' = kind /\ done' = TRUE /\ (Opt \/ Grd \/ Bat \/ Mod)
Next == Choose \/ Step
Spec == Init /\ [][Next]_<<hist, done, kind>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, q |-> hist[1]]))
=============================================================================
