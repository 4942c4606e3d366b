------------------------------- MODULE Genn -------------------------------
(* C28.  A GENN object: options, training data (values and possibly        *)
(* derivatives), and the network fitted last.  With a fixed seed training  *)
(* is a function of what it learns from, called here the lesson: the data, *)
(* the options, and the derivatives exactly when they are supplied and     *)
(* gamma is not zero.  Units of the data are not part of the lesson: the   *)
(* network works on normalised data and answers in the user's units.       *)
EXTENDS Fx
CONSTANTS OptNames, OptVals, DataSets, MaxOps

(* gamma in hundredths                                                      *)
EffGamma(o, d) == IF d.der = 0 THEN 0 ELSE o.gamma
Lesson(o, d, m) == [opt |-> [n \in DOMAIN o \ {"gamma", "mini_batch_size"} |-> o[n]], batch |-> Min2(o.mini_batch_size, m),
                    set |-> d.set, out |-> d.out, gamma |-> EffGamma(o, d), der |-> IF EffGamma(o, d) = 0 THEN 0 ELSE d.der]
(* lessons that must be told apart by their results: everything but the     *)
(* numbers of passes, which may not matter once training has converged      *)
Apart(a, b) == \/ a.set # b.set \/ a.out # b.out \/ a.gamma # b.gamma \/ a.der # b.der \/ a.batch # b.batch
               \/ \E n \in DOMAIN a.opt \ {"num_iterations", "num_epochs"} : a.opt[n] # b.opt[n]

(* ---- bounded model                                                       *)
VARIABLES opt, data, fit, last, k
mvars == <<opt, data, fit, last, k>>
Sizes == [s \in DataSets |-> 3 * s]
Init == /\ opt = [n \in OptNames |-> CHOOSE v \in OptVals : TRUE] /\ data = [set |-> 0, out |-> 0, der |-> 0] /\ fit = [set |-> 0] /\ last = "none" /\ k = 0
SetData == \E s \in DataSets, y \in {1, 2}, d \in {0, 1} : data' = [set |-> s, out |-> y, der |-> d] /\ k' = k + 1 /\ last' = "data" /\ UNCHANGED <<opt, fit>>
SetOpt == \E n \in OptNames, v \in OptVals : opt' = [opt EXCEPT ![n] = v] /\ k' = k + 1 /\ last' = "opt" /\ UNCHANGED <<data, fit>>
Train == data.set # 0 /\ fit' = Lesson(opt, data, Sizes[data.set]) /\ k' = k + 1 /\ last' = "train" /\ UNCHANGED <<opt, data>>
Predict == fit.set # 0 /\ k' = k + 1 /\ last' = "predict" /\ UNCHANGED <<opt, data, fit>>
Next == k < MaxOps /\ (SetData \/ SetOpt \/ Train \/ Predict)
Spec == Init /\ [][Next]_mvars
OnlyTrainLearns == [][last' # "train" => fit' = fit]_mvars
PureTraining == [][last' \in {"train", "predict"} => opt' = opt /\ data' = data]_mvars
NoDerivativesUnasked == fit.set # 0 => (fit.gamma = 0 <=> fit.der = 0)
============================================================================
