------------------------------- MODULE MCMat -------------------------------
(***************************************************************************)
(* Design model of matrix products and inverses.  A pair (m, x) starts as  *)
(* (I, I) and is multiplied by generators (elementary shears, swaps,       *)
(* negations, scalings: all unimodular or diagonal), the inverse side by   *)
(* the generator's inverse; in every reachable state the definitions of    *)
(* module Mat (product, transpose, determinant, adjugate) are consistent.  *)
(* The matrices reached are exported to drive the code.                    *)
(***************************************************************************)
EXTENDS Mat, TLC, Json
CONSTANTS K
VARIABLES m, x, pc
vars == <<m, x, pc>>
Shear(i, j, s) == [r \in Ix |-> [c \in Ix |-> IF r = i /\ c = j THEN RInt(s) ELSE IF r = c THEN R1 ELSE R0]]
Swap(i, j) == [r \in Ix |-> [c \in Ix |->
                 IF (r = i /\ c = j) \/ (r = j /\ c = i) \/ (r = c /\ r # i /\ r # j) THEN R1 ELSE R0]]
Diag(i, s) == [r \in Ix |-> [c \in Ix |-> IF r # c THEN R0 ELSE IF r = i THEN s ELSE R1]]
Gens == {<<Shear(p[1], p[2], s), Shear(p[1], p[2], -s)>> : p \in {q \in Ix \X Ix : q[1] # q[2]}, s \in {1, -2}}
        \cup {<<Swap(i, i + 1), Swap(i, i + 1)>> : i \in 1 .. 3}
        \cup {<<Diag(i, s), Diag(i, RInv(s))>> : i \in Ix, s \in {RInt(-1), R2, RFrac(1, 4)}}
Init == m = MId /\ x = MId /\ pc = 0
Next == pc < K /\ pc' = pc + 1 /\ \E g \in Gens : m' = MMul(m, g[1]) /\ x' = MMul(g[2], x)
Spec == Init /\ [][Next]_vars
InverseLaws == /\ MMul(m, x) = MId /\ MMul(x, m) = MId
               /\ RSgn(MDet(m)) # 0 /\ MInv(m) = x
               /\ MMul(m, MAdj(m)) = MScale(MId, MDet(m))
TransposeLaws == /\ MTr(MTr(m)) = m /\ MTr(MMul(m, x)) = MMul(MTr(x), MTr(m))
                 /\ MDet(MTr(m)) = MDet(m) /\ MInv(MTr(m)) = MTr(x)
ProductLaws == /\ MMul(m, MId) = m /\ MMul(MId, m) = m /\ MMul(m, MZero) = MZero
               /\ MMul(m, MMul(m, x)) = MMul(MMul(m, m), x)
               /\ RMul(MDet(m), MDet(x)) = R1
Majorants == \A i \in Ix, j \in Ix : RLe(RAbs(MAdj(m)[i][j]), MAdjAbs(m)[i][j])
IdxRow(i) == (i - 1) \div 4 + 1
IdxCol(i) == i - 4 * ((i - 1) \div 4)
Export == LET z == [i \in 1 .. 16 |-> RFloorInt(RMul(RInt(64), m[IdxRow(i)][IdxCol(i)]))]
          IN  PrintT("SCN " \o ToJson([m64 |-> z]))
=============================================================================
