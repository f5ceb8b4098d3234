------------------------------- MODULE MCGeo -------------------------------
(***************************************************************************)
(* Design model: the matrices of module Geo have the geometric meaning     *)
(* their constructors document, over rational axes, angles and frusta.     *)
(***************************************************************************)
EXTENDS Geo, TLC, Json
CONSTANTS Full
VARIABLES u, a, q, pc
vars == <<u, a, q, pc>>
F(n, d) == RFrac(n, d)
Units == {UX, UY, UZ, <<F(1, 3), F(2, 3), F(-2, 3)>>, <<F(2, 7), F(3, 7), F(6, 7)>>, <<F(3, 5), R0, F(-4, 5)>>, VNeg(UZ)}
Angles == {<<R0, R1>>, <<R1, R0>>, <<R0, RInt(-1)>>, <<RInt(-1), R0>>, <<F(3, 5), F(4, 5)>>, <<F(-5, 13), F(-12, 13)>>, <<F(24, 25), F(-7, 25)>>}
Small == IF Full THEN {-2, 1, 3} ELSE {-2, 3}
Poss == {<<RInt(x), RInt(y), RInt(z)>> : x \in Small, y \in Small, z \in {0, 5}}
Init == u \in Units /\ a \in Angles /\ q \in Poss /\ pc = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
s == a[1]
c == a[2]
R == GRot(u, s, c)
Rigid(m) == MMul(m, MTr(m)) = MId /\ MDet(m) = R1
RotationLaws ==
    /\ Rigid(R)
    /\ MapV(R, u) = u                                           \* fixes the axis
    /\ MapV(R, VNeg(u)) = VNeg(u)
    /\ \A v \in {<<R1, R2, RInt(3)>>, <<R0, RInt(-1), R1>>} :
         LET perp == VSub(v, VScale(u, VDot(u, v)))
             im == MapV(R, perp)
         IN  /\ VDot(im, perp) = RMul(c, VSq(perp))              \* by the angle
             /\ VCross(perp, im) = VScale(u, RMul(s, VSq(perp)))  \* right-handed
    /\ MInv(R) = GRot(u, RNeg(s), c) /\ MTr(R) = MInv(R)
    /\ MMul(GRot(u, s, c), GRot(u, s, c)) = GRot(u, RMul(R2, RMul(s, c)), RSub(RSq(c), RSq(s)))
CoordAxes ==
    /\ GRot(UX, s, c) = Lin(UX, <<R0, c, RNeg(s)>>, <<R0, s, c>>)
    /\ GRot(UY, s, c) = Lin(<<c, R0, s>>, UY, <<RNeg(s), R0, c>>)
    /\ GRot(UZ, s, c) = Lin(<<c, RNeg(s), R0>>, <<s, c, R0>>, UZ)
\* a view from q along -z' of the rotated frame, target at distance 5, up leaning along z'
ViewLaws ==
    LET x == MapV(R, UX) y == MapV(R, UY) z == MapV(R, UZ)
        m == GView(q, x, y, z)
        target == VSub(q, VScale(z, RInt(5)))
        up == VAdd(y, VScale(z, F(3, 2)))
    IN  /\ MInv(m) = GViewInv(q, x, y, z)
        /\ MapP(m, q) = <<R0, R0, R0>>
        /\ MapP(m, target) = <<R0, R0, RInt(-5)>>
        /\ LET w == MapV(m, up) IN RSgn(w[1]) = 0 /\ RSgn(w[2]) > 0
        /\ \A v \in {UX, <<R1, R2, RInt(3)>>} : VSq(MapV(m, v)) = VSq(v)
        /\ VCross(MapV(m, UX), MapV(m, UY)) = MapV(m, UZ)
\* frustum with half-width tangent t, corner signs
PerspLaws ==
    \A t \in {R1, F(1, 2), F(7, 3)}, n \in {R1, F(1, 4)}, k \in {R2, RInt(50)} :
       LET f == RMul(n, k) m == GPersp(RInv(t), n, f)
       IN  /\ \A sx \in {-1, 0, 1}, sy \in {-1, 1} :
              /\ MapP(m, <<RMul(RInt(sx), RMul(n, t)), RMul(RInt(sy), RMul(n, t)), RNeg(n)>>) = <<RInt(sx), RInt(sy), R0>>
              /\ MapP(m, <<RMul(RInt(sx), RMul(f, t)), RMul(RInt(sy), RMul(f, t)), RNeg(f)>>) = <<RInt(sx), RInt(sy), R1>>
           /\ RSgn(MDet(m)) # 0
           /\ \* depth is increasing away from the eye
              LET mid == RHalf(RAdd(n, f)) IN LET z == MapP(m, <<R0, R0, RNeg(mid)>>)[3] IN RSgn(z) > 0 /\ RLt(z, R1)
AffineLaws ==
    /\ MapP(GTr(q), u) = VAdd(u, q) /\ MapV(GTr(q), u) = u /\ MInv(GTr(q)) = GTr(VNeg(q))
    /\ LET k == <<R2, F(-1, 3), RInt(5)>> IN MapP(GSc(k), q) = VMul(k, q) /\ MInv(GSc(k)) = GSc([i \in I3 |-> RInv(k[i])])
Sc(x) == RFloorInt(RMul(RInt(105), x))
Export == PrintT("SCN " \o ToJson([u |-> [i \in I3 |-> Sc(u[i])], s |-> RFloorInt(RMul(RInt(325), s)), c |-> RFloorInt(RMul(RInt(325), c)), q |-> [i \in I3 |-> RFloorInt(q[i])]]))
=============================================================================
