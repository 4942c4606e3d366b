----------------------------- MODULE LinSolve -----------------------------
(* C25.  A linear solver as a session: set up with a matrix, then solve for *)
(* right-hand sides into arrays it is given.  Matrices and right-hand sides *)
(* are integer, so the specification itself multiplies out A x.             *)
EXTENDS Fx
CONSTANTS Entries, MaxOps

RECURSIVE DotTo(_, _, _)
DotTo(r, x, n) == IF n = 0 THEN 0 ELSE r[n] * x[n] + DotTo(r, x, n - 1)
MatVec(A, x) == [i \in 1..Len(A) |-> DotTo(A[i], x, Len(x))]
(* x in units of 10^-6 (entries at most 100), integer A and b               *)
Solves(A, x, b, tol) ==
    /\ Len(x) = Len(b) /\ AllNum(x)
    /\ \A i \in 1..Len(x) : Abs(x[i]) <= 30 * One
    /\ LET Ax == MatVec(A, x) IN \A i \in 1..Len(b) : Near(Ax[i], b[i] * One, tol)

(* ---- bounded model: 2x2 systems, two columns of an output array          *)
(* One step of a stationary iteration with damping w = wn / 10 from x0 to x1:  *)
(* Jacobi solves with D / w, Gauss-Seidel with D / w and the part below.       *)
IsStep(kind, mat, wn, b, x0, x1, tol) ==
  \A i \in 1..Len(mat) :
    LET dx(j) == x1[j] - x0[j]
        res == One * b[i] - SumSeq([j \in 1..Len(mat) |-> mat[i][j] * x0[j]])
        below == IF kind = "gs" THEN SumSeq([j \in 1..Len(mat) |-> IF j < i THEN mat[i][j] * dx(j) ELSE 0]) ELSE 0
    IN Near(((mat[i][i] * dx(i)) \div wn) * 10 + below, res, tol)

VARIABLES A, det, fact, out, rhs, k
mvars == <<A, det, fact, out, rhs, k>>
Mats == {M \in [1..2 -> [1..2 -> Entries]] : M[1][1] * M[2][2] # M[1][2] * M[2][1]}
Det(M) == M[1][1] * M[2][2] - M[1][2] * M[2][1]
(* the solution times the determinant (Cramer)                              *)
Cramer(M, b) == <<M[2][2] * b[1] - M[1][2] * b[2], M[1][1] * b[2] - M[2][1] * b[1]>>
Init == A \in Mats /\ det = Det(A) /\ fact = A /\ out = [j \in 1..2 |-> <<>>] /\ rhs = [j \in 1..2 |-> <<>>] /\ k = 0
Setup == \E M \in Mats : A' = M /\ fact' = M /\ det' = Det(M) /\ out' = [j \in 1..2 |-> <<>>] /\ rhs' = [j \in 1..2 |-> <<>>] /\ k' = k + 1
Solve == \E j \in 1..2 : \E b \in {<<1, 0>>, <<1, 2>>} :
            out' = [out EXCEPT ![j] = Cramer(fact, b)] /\ rhs' = [rhs EXCEPT ![j] = b] /\ k' = k + 1 /\ UNCHANGED <<A, det, fact>>
Next == k < MaxOps /\ (Setup \/ Solve)
Spec == Init /\ [][Next]_mvars
(* every column written holds the solution for the current matrix           *)
AllSolved == \A j \in 1..2 : out[j] # <<>> =>
                \A i \in 1..2 : A[i][1] * out[j][1] + A[i][2] * out[j][2] = det * rhs[j][i]
OneColumn == [][\A j \in 1..2 : out'[j] # out[j] => (\A i \in 1..2 : i # j => out'[i] = out[i]) \/ out' = [i \in 1..2 |-> <<>>]]_mvars
============================================================================
