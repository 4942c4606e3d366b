-------------------------- MODULE SurrogateSpace --------------------------
(* The configuration space of the surrogates and applications, and the     *)
(* capability table the other modules rely on.  A configuration is         *)
(* [kind, corr, poly, nc, v]: correlation kernel, trend (or polynomial     *)
(* degree), number of PLS components, variant.  TLC enumerates the space.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kernels == {"abs_exp", "squar_exp", "matern52", "matern32"}
PlsKernels == {"abs_exp", "squar_exp"}
Trends == {"constant", "linear", "quadratic"}

C(k, c, p, n, v) == [kind |-> k, corr |-> c, poly |-> p, nc |-> n, v |-> v]

Space ==
       {C("LS", "-", "-", 0, "-"), C("QP", "-", "-", 0, "-")}
  \cup {C("IDW", "-", "-", 0, v) : v \in {"p2", "p3", "p2.5", "p4"}}
  \cup {C("RBF", "-", p, 0, v) : p \in {"-1", "0", "1"}, v \in {"d0.5", "d1", "d2"}}
  \cup {C("RMTB", "-", "-", 0, v) : v \in {"energy", "noenergy", "order3", "lu", "bracketed"}}
  \cup {C("RMTC", "-", "-", 0, v) : v \in {"energy", "noenergy", "elem2", "lu", "cubic"}}
  \cup {C("KRG", c, p, 0, v) : c \in Kernels, p \in Trends, v \in {"cobyla"}}
  \cup {C("KRG", c, "constant", 0, "tnc") : c \in Kernels}
  \cup {C("KPLS", c, p, n, "cobyla") : c \in PlsKernels, p \in Trends, n \in {1, 2}}
  \cup {C("KPLSK", "squar_exp", p, n, "cobyla") : p \in Trends, n \in {1, 2}}
  \cup {C("GEKPLS", c, p, n, v) : c \in PlsKernels, p \in {"constant", "linear"}, n \in {1, 2}, v \in {"extra0", "extra1", "extra2"}}
  \cup {C("MFK", c, p, 0, v) : c \in {"squar_exp", "matern52", "abs_exp"}, p \in {"constant", "linear"}, v \in {"lev1", "lev2", "lev3", "rholin"}}
  \cup {C("MFKPLS", "squar_exp", "constant", n, "lev2") : n \in {1, 2}}
  \cup {C("MFKPLSK", "squar_exp", "constant", n, "lev2") : n \in {1, 2}}
  \cup {C("GENN", "-", "-", 0, v) : v \in {"genn", "batch"}}
  \cup {C("MGP", "act_exp", p, n, "-") : p \in {"constant", "linear"}, n \in {1, 2}}

KrgLike(c) == c.kind \in {"KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK"}
Active(c) == c.kind = "MGP"
Mf(c) == c.kind \in {"MFK", "MFKPLS", "MFKPLSK"}
Spline(c) == c.kind \in {"RMTB", "RMTC"}

(* ---- capability table *)
TrainsOnDerivatives(c) == c.kind \in {"RMTB", "RMTC", "GEKPLS", "GENN"}
NeedsDerivatives(c) == c.kind \in {"GEKPLS", "GENN"}
Differentiable(c) ==
    IF KrgLike(c) THEN c.v # "rholin" /\ c.corr = "squar_exp" /\ c.poly \in {"constant", "linear"}
    ELSE ~Active(c)
OutputDerivatives(c) == c.kind \in {"IDW", "RBF", "RMTB", "RMTC"}
HasVariance(c) == KrgLike(c) \/ Active(c)
VarianceDifferentiable(c) == KrgLike(c) /\ ~Mf(c) /\ c.poly \in {"constant", "linear"}
Interpolates(c) == c.kind \in {"IDW", "RBF"} \/ KrgLike(c)
MultiOutput(c) == c.kind \in {"LS", "QP", "IDW", "RBF", "RMTB", "RMTC", "KRG", "KPLS", "KPLSK", "GENN"}
(* what a model declares, whatever its options: the options may exclude more *)
Declares(c) == [training_derivatives |-> TrainsOnDerivatives(c), derivatives |-> ~Active(c), output_derivatives |-> OutputDerivatives(c),
                variances |-> HasVariance(c), variance_derivatives |-> KrgLike(c) /\ ~Mf(c), adjoint_api |-> FALSE]
OneDimensional(c) == c.nc # 2 /\ c.kind # "GEKPLS"      \* usable with a single input
Cap(c) == [td |-> TrainsOnDerivatives(c), need |-> NeedsDerivatives(c), der |-> Differentiable(c),
           od |-> OutputDerivatives(c), va |-> HasVariance(c), vd |-> VarianceDifferentiable(c),
           interp |-> Interpolates(c), my |-> MultiOutput(c), one |-> OneDimensional(c), decl |-> Declares(c)]

(* ---- enumeration *)
VARIABLE c
Init == c \in Space
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("BEHAVIOUR " \o ToJson([cfg |-> c, cap |-> Cap(c)]))

(* sanity of the table *)
Coherent == /\ NeedsDerivatives(c) => TrainsOnDerivatives(c)
            /\ VarianceDifferentiable(c) => HasVariance(c)
            /\ OutputDerivatives(c) => ~HasVariance(c)
=========================================================================
