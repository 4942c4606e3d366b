----------------------------- MODULE RegressGen ----------------------------
(* random problems: integer polynomials and histories *)
EXTENDS Regress, Json, SequencesExt
CONSTANTS MaxDeg, Dims, Outs, Extra
VARIABLES out
Pick(S) == RandomElement(S)
GInit == out = <<>> /\ pts = 0 /\ phase = "-"
GNext == /\ out = <<>> /\ UNCHANGED <<pts, phase>>
         /\ \E d \in {Pick(0..MaxDeg)} : \E n \in {Pick(Dims)} : \E ny \in {Pick(Outs)} :
            LET bs == Basis(d, n) IN
            \E cs \in {Pick([1..ny -> [bs -> -4..4]])} : \E x \in {Pick(Extra)} : \E s \in {Pick(1..1000)} :
            out' = <<[deg |-> d, n |-> n, ny |-> ny, extra |-> x, seed |-> s,
                      polys |-> [j \in 1..ny |-> [k \in 1..Cardinality(bs) |-> LET b == SetToSeq(bs)[k] IN [b |-> b, c |-> cs[j][b]]]]]>>
GSpec == GInit /\ [][GNext]_<<out, pts, phase>>
Emit == out # <<>> => PrintT("BEHAVIOUR " \o ToJson(out[1]))
=========================================================================
