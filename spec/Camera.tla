------------------------------- MODULE Camera -------------------------------
(***************************************************************************)
(* The thin lens (C21).  A camera is [fd, th, fl, lr, ar]: distance of the *)
(* plane of focus, tangent of half the field of view, focal length, lens   *)
(* radius and aspect ratio.  Camera space: lens centre at the origin, lens *)
(* in z = 0, looking along -z, film at z > 0.                              *)
(***************************************************************************)
EXTENDS Vec
\* where the rays of one film position meet
Focus(c, px, py) ==
    LET w == RMul(RMul(R2, c.th), c.fd)
    IN  <<RMul(RSub(px, RHalf(R1)), w), RMul(RSub(py, RHalf(R1)), RDiv(w, c.ar)), RNeg(c.fd)>>
LensPoint(c, q) == <<RMul(c.lr, q[1]), RMul(c.lr, q[2]), R0>>

(* by the rules of the lens: film at the conjugate distance, its image     *)
(* turned upside down, the ray through the lens centre not refracted       *)
FilmDistance(c) == RDiv(RMul(c.fd, c.fl), RSub(c.fd, c.fl))
FilmWidth(c) == RMul(RMul(R2, c.th), FilmDistance(c))
FilmPoint(c, px, py) ==
    LET w == FilmWidth(c) h == RDiv(w, c.ar)
    IN  <<RMul(w, RSub(RHalf(R1), px)), RMul(h, RSub(RHalf(R1), py)), FilmDistance(c)>>
ChiefAt(c, px, py, z) ==            \* point at depth z of the line from the film through the centre
    LET f == FilmPoint(c, px, py) s == RDiv(z, f[3]) IN <<RMul(f[1], s), RMul(f[2], s), z>>
=============================================================================
