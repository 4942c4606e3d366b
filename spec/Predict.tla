----------------------------- MODULE Predict -----------------------------
(* C04.  A trained model is, for each prediction method, a function from   *)
(* points to rows: whatever batch a point is asked in and whatever was     *)
(* asked before, the same row comes back.  The first answer for a          *)
(* (method, point) pair defines it, every later one must agree.            *)
EXTENDS Fx
CONSTANTS Methods, Points, MaxLen, MaxOps

Empty == [p \in {} |-> <<>>]
Agree(a, b, tol) == NearSeq(a, b, tol)

(* one query: rows[i] is the answer for the point named pts[i] *)
Learn(st, e) ==
    LET new == {i \in 1..Len(e.pts) : <<e.m, e.pts[i]>> \notin DOMAIN st /\ i <= Len(e.rows)
                                      /\ \A j \in 1..(i-1) : e.pts[j] # e.pts[i]}
    IN  [p \in DOMAIN st \cup {<<e.m, e.pts[i]>> : i \in new} |->
            IF p \in DOMAIN st THEN st[p] ELSE e.rows[CHOOSE i \in new : <<e.m, e.pts[i]>> = p]]
Consistent(st, e, tol) ==
    LET s2 == Learn(st, e)
    IN  \A i \in 1..Len(e.rows) : i <= Len(e.pts) => Agree(s2[<<e.m, e.pts[i]>>], e.rows[i], tol)
OneRowPerPoint(e) == Len(e.rows) = Len(e.pts)
Width(e, w) == \A i \in 1..Len(e.rows) : Len(e.rows[i]) = w
Finite(e) == \A i \in 1..Len(e.rows) : AllNum(e.rows[i])

(* ---- bounded model: a stateless predictor F answers queries; what is    *)
(* learnt from its answers is always a restriction of F, in any order.     *)
VARIABLES f, st, n
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE LET r == Seqs(k - 1) IN r \cup {Append(s, p) : s \in r, p \in Points}
Init == f \in [Methods \X Points -> {0, 1}] /\ st = Empty /\ n = 0
Query(m, pts) == [m |-> m, pts |-> pts, rows |-> [i \in 1..Len(pts) |-> <<f[<<m, pts[i]>>]>>]]
Next == n < MaxOps /\ n' = n + 1 /\ f' = f /\ \E m \in Methods, q \in Seqs(MaxLen) :
            /\ Consistent(st, Query(m, q), 0)
            /\ st' = Learn(st, Query(m, q))
Spec == Init /\ [][Next]_<<f, st, n>>
Restriction == \A p \in DOMAIN st : st[p] = <<f[p]>>
NeverStuck == \A m \in Methods, q \in Seqs(MaxLen) : Consistent(st, Query(m, q), 0)
(* an answer differing from the function is inconsistent as soon as the point is known *)
Detects == \A p \in DOMAIN st : ~Consistent(st, [m |-> p[1], pts |-> <<p[2]>>, rows |-> <<<<1 - f[p]>>>>], 0)
=========================================================================
