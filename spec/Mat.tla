-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Exact 4x4 matrices: sequences of four rows of four rationals (C08), and *)
(* the scale of the rounding error of a float computation of them.         *)
(***************************************************************************)
EXTENDS Vec
Ix == 1 .. 4
MId == [i \in Ix |-> [j \in Ix |-> IF i = j THEN R1 ELSE R0]]
MZero == [i \in Ix |-> [j \in Ix |-> R0]]
MTr(a) == [i \in Ix |-> [j \in Ix |-> a[j][i]]]
MAbs(a) == [i \in Ix |-> [j \in Ix |-> RAbs(a[i][j])]]
MNeg(a) == [i \in Ix |-> [j \in Ix |-> RNeg(a[i][j])]]
MMul(a, b) == [i \in Ix |-> [j \in Ix |->
    RAdd(RAdd(RMul(a[i][1], b[1][j]), RMul(a[i][2], b[2][j])),
         RAdd(RMul(a[i][3], b[3][j]), RMul(a[i][4], b[4][j])))]]
MScale(a, s) == [i \in Ix |-> [j \in Ix |-> RMul(a[i][j], s)]]
MSub(a, b) == [i \in Ix |-> [j \in Ix |-> RSub(a[i][j], b[i][j])]]
MAdd(a, b) == [i \in Ix |-> [j \in Ix |-> RAdd(a[i][j], b[i][j])]]
MVec(a, v) == [i \in Ix |-> RAdd(RAdd(RMul(a[i][1], v[1]), RMul(a[i][2], v[2])),
                                 RAdd(RMul(a[i][3], v[3]), RMul(a[i][4], v[4])))]
MMax(a) == RMaxOf([i \in Ix |-> RMaxOf(a[i])])
RowSum(a, i) == RAdd(RAdd(RAbs(a[i][1]), RAbs(a[i][2])), RAdd(RAbs(a[i][3]), RAbs(a[i][4])))
MNorm(a) == RMaxOf([i \in Ix |-> RowSum(a, i)])            \* infinity norm

(* determinant and adjugate by 2x2 minors of the two row pairs *)
LOCAL Pr(i, j) == <<i, j>>
Skip(i, k) == IF k < i THEN k ELSE k + 1                    \* k-th index other than i
Minor(a, i, j) == [r \in 1 .. 3 |-> [c \in 1 .. 3 |-> a[Skip(i, r)][Skip(j, c)]]]
Det3(m) == RAdd(RSub(RMul(m[1][1], RSub(RMul(m[2][2], m[3][3]), RMul(m[2][3], m[3][2]))),
                     RMul(m[1][2], RSub(RMul(m[2][1], m[3][3]), RMul(m[2][3], m[3][1])))),
                RMul(m[1][3], RSub(RMul(m[2][1], m[3][2]), RMul(m[2][2], m[3][1]))))
\* the same with every term positive (permanent of absolute values)
Per3(m) == RAdd(RAdd(RMul(m[1][1], RAdd(RMul(m[2][2], m[3][3]), RMul(m[2][3], m[3][2]))),
                     RMul(m[1][2], RAdd(RMul(m[2][1], m[3][3]), RMul(m[2][3], m[3][1])))),
                RMul(m[1][3], RAdd(RMul(m[2][1], m[3][2]), RMul(m[2][2], m[3][1]))))
Cof(a, i, j) == LET d == Det3(Minor(a, i, j)) IN IF (i + j) % 2 = 0 THEN d ELSE RNeg(d)
MDet(a) == LET c == [j \in Ix |-> RMul(a[1][j], Cof(a, 1, j))] IN RSum(c)
MPer(a) == LET b == MAbs(a) c == [j \in Ix |-> RMul(b[1][j], Per3(Minor(b, 1, j)))] IN RSum(c)
MAdj(a) == [i \in Ix |-> [j \in Ix |-> Cof(a, j, i)]]
MAdjAbs(a) == LET b == MAbs(a) IN [i \in Ix |-> [j \in Ix |-> Per3(Minor(b, j, i))]]
MInv(a) == LET d == MDet(a) IN MScale(MAdj(a), RInv(d))

(* permitted error of a computed inverse, per entry: proportional to the   *)
(* condition of the matrix, by either standard analysis (normwise, or of   *)
(* cofactors and determinant)                                              *)
InvTol(a, k, w) ==
    LET d == RAbs(MDet(a))
        x == MInv(a)
        ab == MAdjAbs(a)
        pr == RDiv(MPer(a), d)
        kn == RMul(RMul(MNorm(a), MNorm(x)), MMax(x))
    IN  [i \in Ix |-> [j \in Ix |->
            RMul(RMul(RInt(k), Eps(w)),
                 RAdd(kn, RAdd(RDiv(ab[i][j], d), RMul(RAbs(x[i][j]), pr))))]]
MNear(a, b, tol) == \A i \in Ix, j \in Ix : RLe(RAbs(RSub(a[i][j], b[i][j])), tol[i][j])
=============================================================================
