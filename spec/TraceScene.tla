----------------------------- MODULE TraceScene -----------------------------
(***************************************************************************)
(* Recorded scene histories against module Scene.  State: the graph built  *)
(* so far (members of each list, what each placed object places and how).  *)
(*   leaf, list, xf   a new node          add   insertion into a list      *)
(*   ask   a query of a list or placed object, with what its parts answer  *)
(*         (for a placed object: to the ray carried to object space)       *)
(*   bb    the bounding box, with those of the parts                       *)
(* C19 decides lists, C20 placed objects.                                  *)
(***************************************************************************)
EXTENDS TraceBase, Scene, Xf
VARIABLES l, g
vars == <<l, g>>
W == 32
U == Eps(W)
UK(k) == RMul(RInt(k), U)
F3(s) == [k \in 1 .. Len(s) |-> DecV(s[k])]
Fin3(s) == \A k \in 1 .. Len(s) : IsFin(Dec(s[k]))
FM(m) == [i \in Ix |-> [j \in Ix |-> DecV(m[i][j])]]

NewNode(e) ==
    CASE e.e = "leaf" -> Leaf({e.par[i] : i \in DOMAIN e.par})
      [] e.e = "list" -> List(<<>>)
      [] e.e = "xf" -> Placed(e.of, e.s) @@ [m |-> FM(e.m), i |-> FM(e.i)]
After(e) == CASE e.e = "begin" -> <<>>
              [] e.e \in {"leaf", "list", "xf"} -> Append(g, NewNode(e))
              [] e.e = "add" -> [g EXCEPT ![e.l].mem = Append(@, e.m)]
              [] OTHER -> g

Members(n) == {g[n].mem[i] : i \in DOMAIN g[n].mem}
Kid(e, id) == LET i == CHOOSE i \in DOMAIN e.kids : e.kids[i].id = id IN e.kids[i]
Parts(e) == {Kid(e, id) : id \in Members(e.n)}
Hits(e) == {k.full : k \in {p \in Parts(e) : p.full.hit}}
TOf(f) == Dec(f.t)

\* equal as values (the sign of zero does not matter)
Same(x, y) == LET a == Dec(x) b == Dec(y) IN (IsNaN(a) /\ IsNaN(b)) \/ a = b
SameSeq(x, y) == \A i \in DOMAIN x : Same(x[i], y[i])
SameHit(a, b) == Same(a.t, b.t) /\ SameSeq(a.p, b.p) /\ SameSeq(a.n, b.n) /\ SameSeq(a.uv, b.uv) /\ SameSeq(a.du, b.du) /\ SameSeq(a.dv, b.dv)

\* along the model's line the answer is known beforehand
LineT(f) == IF f.hit THEN Dec(f.t) ELSE Fin(RInt(None))
ExtOf(e) == LET x == Dec(e.tmax) IN IF IsFin(x) /\ RLe(x[2], RInt(100)) THEN RFloorInt(x[2]) ELSE 100
LineOk(e) == ~e.line \/ LineT(e.o.full) = Fin(RInt(First(g, e.n, ExtOf(e))))

\* generous: only misplacement counts here, rounding is judged elsewhere
Loose == RPow2(-12)
Reach(e) == LET o == F3(e.org) d == F3(e.d) t == RAbs(DecV(e.o.full.t)) IN [k \in I3 |-> RAdd(RAbs(o[k]), RMul(RAbs(d[k]), t))]
InBoxTol(p, lo, hi, tol) == \A k \in I3 : RLe(RSub(lo[k], tol), p[k]) /\ RLe(p[k], RAdd(hi[k], tol))
InBounds(e, extra) ==
    LET p == F3(e.o.full.p) tol == RMul(Loose, RAdd(RAdd(RSum(Reach(e)), RSum(VAbs(p))), extra))
    IN  Fin3(e.lo) /\ Fin3(e.hi) /\ InBoxTol(p, F3(e.lo), F3(e.hi), tol)

AskList(e) ==
    LET f == e.o.full H == Hits(e)
    IN  IF e.o.yes # (\E k \in Parts(e) : k.yes) THEN "yes/no answer of a list"
        ELSE IF f.hit # (H # {}) THEN "hit of a list"
        ELSE IF e.o.yes # f.hit THEN "yes/no query disagrees"
        ELSE IF f.hit /\ (\E h \in H : ELt(TOf(h), TOf(f))) THEN "not the nearest hit"
        ELSE IF f.hit /\ ~(\E h \in H : SameHit(f, h)) THEN "not the hit of a member"
        ELSE IF ~LineOk(e) THEN "not the nearest member of the history"
        ELSE Say(~f.hit \/ InBounds(e, R0), "hit outside the bounding box")

(*** placed objects ***)
\* majorant of the magnitudes in carrying the ray to object space and back
Carried(x, h) == [r \in I3 |-> LET a == MAbs(x.i) IN RAdd(Row3(a, r, h), a[r][4])]
Back(x, h) == LET a == MAbs(x.m) c == Carried(x, h) IN [r \in I3 |-> RAdd(Row3(a, r, c), a[r][4])]
\* the whole deviation of the original hit from its own ray, carried over
Dev(e, f) == LET o == F3(e.korg) d == F3(e.kd) p == F3(f.p) t == DecV(f.t)
             IN  [k \in I3 |-> RAbs(RSub(p[k], RAdd(o[k], RMul(d[k], t))))]
OnWorldRay(e, x, k) ==
    LET o == F3(e.org) d == F3(e.d) p == F3(e.o.full.p) t == DecV(e.o.full.t)
        b == Back(x, Reach(e)) dv == Dev(e, k.full)
    IN  \A r \in I3 : RLe(RAbs(RSub(p[r], RAdd(o[r], RMul(d[r], t)))),
                          RAdd(RAdd(Row3(MAbs(x.m), r, dv), RMul(UK(64), b[r])), Tiny(64, W)))
\* the world ray's own point, up to rounding its evaluation
AtWorldRay(e) ==
    LET o == F3(e.org) d == F3(e.d) p == F3(e.o.full.p) t == DecV(e.o.full.t)
    IN  \A r \in I3 : RNear(p[r], RAdd(o[r], RMul(d[r], t)),
                            RAdd(RMul(UK(4), RAdd(RAbs(o[r]), RAbs(RMul(d[r], t)))), Tiny(4, W)))
UnitImage(n, i, c) ==       \* n is the normalised image of the normal c
    LET x == MapN(i, c) L == SqrtOf(VSq(x))
        big == RSum([k \in I3 |-> RSum([j \in I3 |-> RMul(RAbs(c[j]), RAbs(i[j][k]))])])
    IN  /\ \A k \in I3 : RNear(RMul(n[k], L), x[k], RMul(UK(32), big))
        /\ RNear(VSq(n), R1, UK(16))
AskXf(e) ==
    LET f == e.o.full x == g[e.n] k == Kid(e, x.of)
    IN  IF ~(Fin3(e.korg) /\ Fin3(e.kd)) THEN "ray in object space"
        ELSE IF ~PointOk(F3(e.korg), x.i, M0, F3(e.org), 16, W) THEN "ray's origin in object space"
        ELSE IF ~VecOk(F3(e.kd), x.i, M0, F3(e.d), 16, W) THEN "ray's direction in object space"
        ELSE IF e.o.yes # k.yes THEN "yes/no answer of a placed object"
        ELSE IF f.hit # k.full.hit THEN "hit of a placed object"
        ELSE IF e.o.yes # f.hit THEN "yes/no query disagrees"
        ELSE IF ~LineOk(e) THEN "not where the placed object is met"
        ELSE IF ~f.hit THEN "ok"
        ELSE IF ~(IsFin(Dec(k.full.t)) /\ Fin3(k.full.p) /\ Fin3(k.full.n) /\ Fin3(k.full.du) /\ Fin3(k.full.dv)) THEN "ok"
        ELSE IF ~Same(f.t, k.full.t) THEN "ray parameter"
        ELSE IF ~(Fin3(f.p) /\ Fin3(f.n) /\ Fin3(f.du) /\ Fin3(f.dv)) THEN "not finite"
        ELSE IF ~OnWorldRay(e, x, k) THEN "hit point is not on the world ray"
        ELSE IF ~PointOk(F3(f.p), x.m, MScale(MAbs(x.m), UK(16)), F3(k.full.p), 16, W) /\ ~SameSeq(f.p, k.full.p) /\ ~AtWorldRay(e)
             THEN "hit point is not the image"
        ELSE IF ~UnitImage(F3(f.n), x.i, F3(k.full.n)) THEN "normal"
        ELSE IF ~VecOk(F3(f.du), x.m, M0, F3(k.full.du), 16, W) THEN "first tangent"
        ELSE IF ~VecOk(F3(f.dv), x.m, M0, F3(k.full.dv), 16, W) THEN "second tangent"
        ELSE IF ~SameSeq(f.uv, k.full.uv) THEN "surface coordinates"
        ELSE Say(InBounds(e, RSum(Back(x, Reach(e)))), "hit outside the bounding box")

(*** bounding boxes ***)
EMinOf(S) == CHOOSE x \in S : \A y \in S : ELe(x, y)
EMaxOf(S) == CHOOSE x \in S : \A y \in S : ELe(y, x)
Six(e) == \A k \in I3 : Same(e.o.six[k], e.o.lo[k]) /\ Same(e.o.six[k + 3], e.o.hi[k])
EmptyBox(lo, hi) == \A k \in I3 : ELt(Dec(hi[k]), Dec(lo[k]))
BbList(e) ==
    LET K == Parts(e) N == {k \in K : ~EmptyBox(k.lo, k.hi)}
    IN  IF N = {} THEN Say(EmptyBox(e.o.lo, e.o.hi), "box of an empty list")
        ELSE Say(\A a \in I3 : /\ Dec(e.o.lo[a]) = EMinOf({Dec(k.lo[a]) : k \in N})
                               /\ Dec(e.o.hi[a]) = EMaxOf({Dec(k.hi[a]) : k \in N}),
                 "not the least box containing the members")
BbXf(e) ==
    LET x == g[e.n] k == Kid(e, x.of)
    IN  IF EmptyBox(k.lo, k.hi) THEN Say(EmptyBox(e.o.lo, e.o.hi), "box of an empty placed object")
        ELSE LET lo == F3(k.lo) hi == F3(k.hi) big == VMaxAbs(lo, hi)
             IN  Say(Fin3(e.o.lo) /\ Fin3(e.o.hi) /\
                     \A r \in I3 : LET t == ErrP(x.m, M0, big, r, 16, W)
                                   IN  RLe(DecV(e.o.lo[r]), RAdd(HullLo(x.m, lo, hi)[r], t)) /\
                                       RGe(DecV(e.o.hi[r]), RSub(HullHi(x.m, lo, hi)[r], t)),
                     "box does not contain the placed object's box")
Verdict(e) ==
    CASE e.e = "ask" -> IF e.panic THEN "panic" ELSE IF Prop = "C19" THEN AskList(e) ELSE AskXf(e)
      [] e.e = "bb" -> IF e.panic THEN "panic"
                       ELSE IF ~Six(e) THEN "coordinate bounds"
                       ELSE IF Prop = "C19" THEN BbList(e) ELSE BbXf(e)
      [] OTHER -> "ok"
Init == l = 1 /\ g = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN Report(l, e, Verdict(e)) /\ g' = IF IsCtl(e) THEN g ELSE After(e)
        /\ l' = l + 1
        /\ Finish(l)
Spec == Init /\ [][Next]_vars
=============================================================================
