------------------------- MODULE TrainingDataGen -------------------------
(* Random histories of TrainingData.  A train step is only taken when the  *)
(* store is trainable (values present in the unnamed group, derivative     *)
(* slots consistent with them); it carries the store the specification     *)
(* expects, from which the harness builds the reference model.             *)
EXTENDS TrainingData, Json
CONSTANT Depth
VARIABLES hist, done
Pick(S) == RandomElement(S)
Kinds == {[kind |-> "LS", td |-> FALSE, need |-> FALSE, my |-> TRUE, nx |-> 1], [kind |-> "LS", td |-> FALSE, need |-> FALSE, my |-> TRUE, nx |-> 2],
          [kind |-> "IDW", td |-> FALSE, need |-> FALSE, my |-> TRUE, nx |-> 2], [kind |-> "RBF", td |-> FALSE, need |-> FALSE, my |-> TRUE, nx |-> 2],
          [kind |-> "KRG", td |-> FALSE, need |-> FALSE, my |-> TRUE, nx |-> 1], [kind |-> "KRG", td |-> FALSE, need |-> FALSE, my |-> TRUE, nx |-> 2],
          [kind |-> "RMTC", td |-> TRUE, need |-> FALSE, my |-> TRUE, nx |-> 1], [kind |-> "RMTC", td |-> TRUE, need |-> FALSE, my |-> TRUE, nx |-> 2],
          [kind |-> "RMTB", td |-> TRUE, need |-> FALSE, my |-> TRUE, nx |-> 2],
          [kind |-> "GEKPLS", td |-> TRUE, need |-> TRUE, my |-> FALSE, nx |-> 2],
          [kind |-> "MFK", td |-> FALSE, need |-> FALSE, my |-> FALSE, nx |-> 2]}

None == [kind |-> "-", nx |-> 0]
GInit == /\ model = None
         /\ st = Empty /\ n = 0 /\ hist = <<>> /\ done = FALSE

(* forms: how the harness hands the array over; the last three are invalid *)
Forms == <<"2d", "2d", "2d", "1d", "fortran", "view", "int", "2d", "2d", "list", "3d", "none">>
Array(i, rows, cols, f) ==
    LET c == IF f = "1d" THEN 1 ELSE cols
    IN  [id |-> i, rows |-> rows, cols |-> c, form |-> f, ok |-> f \notin {"list", "3d", "none"}]
XArray(i, rows, f) ==
    LET g == IF f \in {"1d", "int"} /\ model.nx # 1 THEN "2d" ELSE IF f = "int" THEN "2d" ELSE f
    IN  Array(i, rows, model.nx, g)
YCols == IF model.my THEN {1, 2} ELSE {1}

Trainable ==
    /\ Has(st, "none", 0)
    /\ model.kind = "MFK" => Has(st, "0", 0)
    /\ \A k \in 1..model.nx :
         /\ Has(st, "none", k) => /\ st[Slot("none", k)].y.cols = st[Slot("none", 0)].y.cols
                                  /\ model.need => st[Slot("none", k)].x.id = st[Slot("none", 0)].x.id
         /\ model.need => Has(st, "none", k)
Store == {[g |-> p[1], k |-> p[2], x |-> st[p].x, y |-> st[p].y] : p \in DOMAIN st}

Do(e) == st' = Step(model, st, e).st /\ hist' = Append(hist, e)
Choose == model = None /\ (\E k \in {Pick(Kinds)} : model' = k) /\ UNCHANGED <<st, n, hist, done>>
GStep ==
    /\ model # None /\ Len(hist) < Depth
    /\ n' = n + 1 /\ done' = FALSE /\ model' = model
    /\ \E kind \in {Pick(1..20)} : \E g \in {Pick(IF Pick(1..3) = 1 THEN Groups ELSE {"none"})} :
       \E r1 \in {Pick(Rows)} : \E same \in {Pick(1..5)} : \E f1 \in {Pick(1..12)} : \E f2 \in {Pick(1..12)} :
       \E c \in {Pick(YCols)} : \E k \in {Pick(0..(model.nx + 1))} :
       \E ra \in {Pick(Rows)} : \E odd \in {Pick(1..6)} :
       LET r2 == IF same = 1 THEN ra ELSE r1
           ur == IF same > 1 /\ Has(st, g, 0) THEN st[Slot(g, 0)].x.rows ELSE r1
           k2 == IF odd = 1 THEN k ELSE IF k > model.nx THEN model.nx ELSE IF k < 1 THEN 1 ELSE k
           dr == IF same > 1 /\ Has(st, g, k2) THEN st[Slot(g, k2)].x.rows ELSE ur
           sx == Has(st, g, 0) /\ same > 1
       IN
       \/ kind <= 4 /\ Do([op |-> "setv", g |-> g, x |-> XArray(2*n, r1, Forms[f1]), y |-> Array(2*n+1, r2, c, Forms[f2])])
       \/ kind \in 5..7 /\ Do([op |-> "updv", g |-> g, y |-> Array(2*n+1, ur, c, Forms[f2])])
       \/ /\ kind \in 8..11
          /\ Do([op |-> "setd", g |-> g, k |-> k2, x |-> IF sx THEN st[Slot(g, 0)].x ELSE XArray(2*n, r1, Forms[f1]),
                 y |-> Array(2*n+1, IF sx THEN ur ELSE r2, IF Has(st, g, 0) THEN st[Slot(g, 0)].y.cols ELSE c, IF Forms[f2] = "int" THEN "2d" ELSE Forms[f2])])
       \/ /\ kind \in 12..13
          /\ Do([op |-> "updd", g |-> g, k |-> k2, y |-> Array(2*n+1, dr, IF Has(st, g, 0) THEN st[Slot(g, 0)].y.cols ELSE c, Forms[f2])])
       \/ kind \in 14..15 /\ Do([op |-> "scribble"])
       \/ kind \in 16..20 /\ Trainable /\ Do([op |-> "train", store |-> Store])
       \/ /\ kind \in 16..20 /\ ~Trainable      \* move towards a trainable store instead
          /\ IF ~Has(st, "none", 0) THEN Do([op |-> "setv", g |-> "none", x |-> XArray(2*n, r1, "2d"), y |-> Array(2*n+1, r1, c, "2d")])
             ELSE IF model.kind = "MFK" /\ ~Has(st, "0", 0) THEN Do([op |-> "setv", g |-> "0", x |-> XArray(2*n, r1, "2d"), y |-> Array(2*n+1, r1, c, "2d")])
             ELSE \E b \in {Pick(1..model.nx)} :
                  Do([op |-> "setd", g |-> "none", k |-> b, x |-> st[Slot("none", 0)].x,
                      y |-> Array(2*n+1, st[Slot("none", 0)].x.rows, st[Slot("none", 0)].y.cols, "2d")])
GDone == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<model, st, n, hist>>
GNext == Choose \/ GStep \/ GDone
GSpec == GInit /\ [][GNext]_<<model, st, n, hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([model |-> model, ev |-> hist]))
=========================================================================
