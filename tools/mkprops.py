#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": None}})
def m(name, where): return {"name": name, "where": where}

IV = "src/math/interval.rs"; IG = "src/math/interval_as_gfloat.rs"; SC = "src/math/scalar.rs"
VE = "src/math/vector.rs"; VT = "src/math/vector_traits.rs"; VI = "src/math/vectori.rs"
TR = "src/math/transform.rs"; TI = "src/math/transform_inverse_impl.rs"
BB = "src/geometry/bbox.rs"; SP = "src/geometry/sphere.rs"; PR = "src/geometry/primitive.rs"; RA = "src/geometry/ray.rs"
CA = "src/cameras/camera.rs"; TL = "src/cameras/thin_lens.rs"

prop("C01", "Interval arithmetic always encloses the exact result",
 "For every interval addition, subtraction, multiplication, division, reciprocal, negation, square, square root, absolute value, sign, minimum, maximum and clamp (interval with interval or with scalar, plain or compound assignment, 32- or 64-bit), the returned interval is well formed (lower <= upper) and contains the exact real result for every choice of members of the operands at which the operation is defined. "
 "Hence the result of any program of such operations contains the exact real value the program computes from any members of its inputs. "
 "Operands have non-NaN bounds and no step forms an undefined bound such as 0*inf or inf-inf; a square root reads the non-negative part of its operand and members of a divisor equal to zero are excluded.",
 ["inputs", "programs"], "all finite interval operands (every sign case, exact/wide, zero-touching, subnormal, huge), all programs of the listed operations",
 "The three tests follow three fixed CGAL programs whose operands never straddle zero in both factors and only compare iteration counts; no test compares any result with the exact real value, so a sign case or a missing outward step is invisible.",
 [IV, IG, SC], [m("sign-case analysis of products and quotients", IV), m("outward step of one ulp after each rounded operation", IV), m("next_up/next_down", SC)],
 [{"name": "inf, sup", "meaning": "bounds of the enclosure", "where": IV}], ["results of the public operators"])

prop("C02", "Interval elementary functions enclose the true function",
 "For every interval argument inside the function's domain, sine, cosine, tangent, arcsine, arccosine, arctangent and two-argument arctangent return a well-formed interval that contains the exact value of the function at every member of the argument(s), including interior extrema of wide arguments and every quadrant and axis for the two-argument arctangent (principal value, origin excepted). "
 "The interval constants pi, tau, pi/2 and pi/4 contain the exact constants, in 32 and 64 bits.",
 ["inputs"], "all finite interval arguments: any width, any position, all quadrant combinations, points on the axes",
 "Tests sample only 64-bit sine/cosine intervals narrower than pi against rounded scalar values, and only exact off-axis points for the two-argument arctangent; asin, acos, atan, tan, wide arguments, axis points and 32-bit constants are never evaluated.",
 [IG, IV, SC], [m("extremum detection by derivative signs and width", IG), m("quadrant case analysis", IG), m("directed pi constants", SC)])

prop("C03", "Interval comparisons and set queries are certain",
 "An ordering or equality test between intervals (or interval and scalar) answers affirmatively only if it holds for every choice of members, and it does decide less/greater for disjoint intervals and equality for equal exact values. "
 "Membership, range, sign, exactness, same-bounds, finiteness/infinity and zero/one queries agree with the interval seen as the closed set between its bounds (the generic sign predicates are such ordering tests against zero). "
 "Union and intersection are the hull and the intersection of those sets, conversion from a scalar or pair keeps the bounds, and the scalar approximation of an interval is a member of it (bounds whose sum does not overflow). Seen as a number of the generic float interface, an interval steps both bounds to the neighbouring floats, converts to what one of its members converts to, and stands for the converted number and for each limit constant by a single point (or an ulp around it).",
 ["inputs"], "all pairs of intervals and scalars in every relative position (disjoint, touching, overlapping, nested, equal, exact, infinite)",
 "The tests use only `contains` and `is_same` on a handful of values; none exercises ordering, sign or infinity queries, or union/intersection.",
 [IV, IG, SC], [m("partial ordering on bounds", IV), m("sign and membership predicates", IV), m("union/intersect", IV)])

prop("C04", "Interval enclosures stay tight",
 "For finite operands, each bound returned by addition, subtraction, multiplication, division by an interval without zero, negation, square, square root, minimum and maximum lies within four units in the last place of the corresponding bound of the exact result set (a bound beyond the largest float counts as that float, and infinity as its neighbour). "
 "For exact (single-point) operands, sine, cosine, arcsine, arccosine, arctangent and off-axis two-argument arctangent have bounds within eight units in the last place of the exact value (units of pi for the two-argument arctangent), and sine/cosine of intervals narrower than pi have bounds within eight units of the exact range.",
 ["inputs"], "all finite operands whose exact result neither overflows nor is undefined",
 "Two tests count iterations of fixed programs; a loosened branch outside those programs (another sign case, another function, 32-bit) passes.",
 [IV, IG], [m("one-ulp outward step instead of coarse widening", IV), m("exact case analysis selecting the extreme products", IV)])

prop("C05", "next_up and next_down step to the adjacent float",
 "For every 32-bit and 64-bit float that is not NaN, next_up returns the least representable value greater than it (infinity stays infinity, both zeros go to the least positive subnormal, the largest finite value goes to infinity) and next_down is its mirror image; NaN stays NaN. "
 "Consequently the two are inverse to each other on non-zero values other than the infinities, and no representable value is skipped.",
 ["inputs"], "all 2^32 32-bit patterns; 64-bit patterns around every binade/sign/class boundary and random ones",
 "No test calls either function directly; they are exercised only on ordinary positive values through interval arithmetic.",
 [SC], [m("integer arithmetic on the bit pattern", SC)])

prop("C06", "Scalar helpers agree with the numeric order",
 "For every supported integer and float type, the identity and limit constants, minimum, maximum, ordered pair, clamp, range test, square, sign predicates, sign value and absolute value are exactly those of the type's numeric order (non-NaN, no integer overflow), NaN/finite/infinite classification and the named float constants are correct, and conversions round to nearest into floats and truncate (saturating) into integers. "
 "Approximate equality of floats is symmetric and holds exactly when the difference is below 1e-6 or below 1e-4 (32-bit) / 1e-6 (64-bit) of the larger magnitude, up to rounding of that threshold; for integers it is equality, for intervals, vectors, matrices and transforms it is the conjunction over components, and an interval is approximately a scalar when it contains it and both bounds are approximately equal to it.",
 ["inputs"], "all values of each type at and around zero, limits and equal operands; float pairs around the tolerance thresholds",
 "Only fequals is reached, on three values near 1; classification, clamp, sign and integer impls are never called on boundary values.",
 [SC, IV, VE, TR], [m("default trait methods", SC), m("per-type constants", SC), m("fequals", SC)])

prop("C07", "Vector, point and normal algebra is componentwise and exact",
 "For 2-, 3- and 4-component vectors, points and normals over integers and floats, negation, sum, difference, component product/quotient, scalar product/quotient (plain and compound assignment where offered), minimum, maximum, default, indexing, named components and conversions between kinds act on each component independently with one correctly rounded operation. "
 "Dot product, squared norm, norm, squared distance, distance, cross product and normalisation equal the mathematical values up to rounding (exactly on integers); point difference is a vector and point plus/minus vector is a point displaced by it.",
 ["inputs"], "all kinds, dimensions, scalar types and component values (no overflow)",
 "Tests cover unit axes and three fixed 64-bit vectors; 2D/4D, points, normals, integers, compound assignment, min/max and component products are not tested.",
 [VE, VT], [m("component loops over the array", VE), m("conversions between marker kinds", VE), m("norm trait defaults", VT)])

prop("C08", "Matrix algebra is correct, including the inverse",
 "Products of 4x4 matrices, products with a scalar, transposition, row/column access, indexing, identity and zero agree with linear algebra (exactly on integers, up to rounding on floats). "
 "For every invertible float matrix, the computed inverse multiplied by the matrix on either side is the identity up to an error proportional to the condition of the matrix.",
 ["inputs"], "all 4x4 matrices with moderate entries; invertible well-conditioned ones for the inverse (including non-affine, permuted and negative-determinant)",
 "Each operation is tested on one matrix; the general inverse is reached only through perspective matrices, where most cofactors vanish.",
 [TR, TI], [m("triple loop product", TR), m("adjugate inverse with 16 cofactors", TI)])

prop("C09", "Composed transforms map forward and back consistently",
 "For every transform built from the provided constructors by any sequence of compositions and inversions, mapping by a product equals mapping by its right factor and then its left factor, and inverse mapping undoes forward mapping (and vice versa) for points, vectors, normals and rays, up to rounding. "
 "The reported matrix and inverse matrix are inverse to each other, inversion exchanges them, points transform with translation and perspective division, vectors ignore translation, and a mapped ray keeps its parametrisation: its point at t is the image of the original point at t, with the same extent.",
 ["programs", "inputs"], "all sequences of constructors, products and inversions with well-conditioned parameters; all points, vectors, normals, rays",
 "Tests only multiply a rotation by its opposite and map a few vectors through single constructors; products of different kinds, normals, rays and inverse mapping of compositions are never evaluated.",
 [TR, RA], [m("pair (matrix, inverse) maintained under product and inversion", TR), m("map/map_inverse per kind of object", TR), m("ray mapping", RA)])

prop("C10", "Transform constructors realise their stated geometry",
 "Translation, axis-wise scaling, rotation about a coordinate axis or any given axis (right-handed, by the given angle), viewing and perspective transforms map every point as their description says: the view transform is rigid and right-handed, sends the eye to the origin, the target to the negative z axis at its distance and the up direction into the half-plane x=0, y>0; the perspective transform sends the frustum between the near and far planes onto [-1,1]x[-1,1]x[0,1]. "
 "Each constructor's inverse mapping is the geometric inverse.",
 ["inputs"], "all parameters: any angle, any non-zero axis, any non-zero scale, any non-degenerate eye/target/up, any 0<near<far and 0<fov<pi",
 "Each constructor is tested forward on about 20 seeded samples in 64-bit, with unit-cube eye/target and positive parameters; inverse matrices, translation, scaling, negative scales, long axes and 32-bit are not tested.",
 [TR], [m("closed-form matrix and inverse per constructor", TR), m("Rodrigues rotation", TR), m("orthonormal view basis", TR)])

prop("C11", "Transformed normals stay perpendicular to transformed surfaces",
 "For every invertible affine transform, normal and tangent vector that are perpendicular, their images are perpendicular too, and so are their inverse images, because a normal maps linearly by the inverse transpose of the transform. "
 "Mapping a normal forward and then back returns the original normal.",
 ["inputs"], "all affine transforms (non-uniform and negative scales, rotations, products) and all normals",
 "No test maps a normal.", [TR], [m("inverse-transpose mapping of normals", TR)])

prop("C12", "Interval geometry encloses the exact geometry",
 "Mapping a point, vector, normal or ray with interval components through a transform, and the algebra of interval vectors (sum, difference, scaling and division by a scalar or interval, dot, cross, squared norm, norm, normalisation, minimum, maximum), yields components that contain the exact result for every choice of members of the inputs. "
 "Interval versions of exact vectors have exactly those bounds, and the scalar version of an interval vector is inside it.",
 ["inputs"], "all affine and perspective transforms; all interval points, vectors, normals and rays with finite components",
 "Nothing with interval components is ever mapped or combined in the tests; the mapping of interval vectors aborted for every transform before it was repaired.",
 [VI, TR, RA, VE, IV], [m("generic mapping over interval scalars", TR), m("interval vector conversions and scalings", VI)])

prop("C13", "Bounding boxes behave as closed point sets",
 "A box built from two corners contains exactly the points between them in every coordinate, whatever the corner order; the union (method, +, +=) of boxes is the least box containing both, the default box is neutral for it, and the intersection contains exactly the common points. "
 "Containment, overlap of interiors (strict in every coordinate), diagonal, centre, largest extent (axis and its bounds) and the six coordinate bounds agree with that set.",
 ["inputs", "histories"], "all boxes (flat, equal, nested, disjoint, touching) and points; all sequences of unions and intersections",
 "No test checks box construction, union, intersection, overlap, containment, centre or extent.",
 [BB, PR], [m("per-axis min/max", BB), m("inverted empty default", BB)])

prop("C14", "A transformed box tightly bounds the transformed contents",
 "For every affine transform and every box, the forward-mapped (inverse-mapped) box is, up to rounding, the least axis-aligned box containing the image (pre-image) of every point of the box; the image of an empty box is empty.",
 ["inputs"], "all affine transforms, including rotations, shears and negative scales; all boxes",
 "No test maps a box.", [BB, TR], [m("Arvo's min/max accumulation per matrix row", BB)])

prop("C15", "Ray-box test returns exactly the ray's stay in the box",
 "Intersecting a ray with a box reports a hit exactly when some point of the ray with parameter in [0, extent] belongs to the closed box, and then returns the first and last such parameters. "
 "This includes rays starting inside, ending inside, lying in a face plane, running parallel to axes (either zero sign), pointing away, and boxes without thickness; the yes/no query agrees.",
 ["inputs"], "all boxes and rays with finite components and non-zero direction, up to rounding at grazing contact",
 "One test shoots 100 random rays in general position; zero direction components, face-plane rays, flat boxes and boundary extents have probability zero there.",
 [BB], [m("slab method", BB)])

prop("C16", "Box surface hits describe the entered face",
 "When a ray enters a box from outside, the reported parameter is the entry parameter, the hit point is the ray's point there and lies on the box's boundary, and the normal is the outward unit normal of a face containing that point with the two tangents non-zero, perpendicular to it and to each other. "
 "The full query reports a hit exactly when the yes/no query does. For a ray that starts strictly inside, the full query currently reports parameter zero and the origin moved onto a face (a recorded finding); nothing else is accepted unless it is the ray's point on the boundary with that face's normal.",
 ["inputs"], "all boxes with volume and all rays starting outside, entering through any face",
 "No test calls the full box intersection.", [BB, PR], [m("closest-face selection", BB)])

prop("C17", "Ray-sphere test returns the nearest point on the sphere's patch",
 "Intersecting a ray with a (possibly partial) sphere reports a hit exactly when some ray parameter in [0, extent] gives a point at distance radius from the origin whose z lies between the patch's limits and whose azimuth does not exceed its maximum; the reported parameter is the least such parameter and the reported point is the ray's point there. "
 "The yes/no query agrees, and every reported point lies in the sphere's bounding box.",
 ["inputs"], "all radii, z-limits within the sphere (also negative), azimuth limits, ray origins inside/outside/behind, unnormalised directions, extents; up to rounding near tangency (exact tangents along an axis are decided) and at patch edges",
 "The one test uses patches of the upper hemisphere only and rays through two known points.",
 [SP], [m("stable quadratic solution", SP), m("root selection with clipping of range, z and azimuth", SP)])

prop("C18", "Sphere hits carry a consistent surface description",
 "For every hit on a sphere patch the normal is the outward unit normal at the point, the surface coordinates lie in [0,1]^2 and are the affinely rescaled azimuth (from -pi to its maximum) and polar angle (from the lower to the upper z-limit), and the two tangents are the partial derivatives of the point with respect to them. "
 "The stored polar-angle limits match the z-limits and the reported area is that of the patch.",
 ["inputs"], "all patches (upper, lower, spanning hemispheres) and all hit points, poles included for the normal",
 "The test looks only at the ray parameter; normal, coordinates, tangents and area are never read.",
 [SP, PR], [m("polar parametrisation", SP), m("normal computation", PR)])

prop("C19", "A scene list reports the nearest hit of its members",
 "For every history of insertions, intersecting a ray with the list returns exactly the hit with the least parameter among those of its members (no hit iff no member is hit), independently of insertion order, and the yes/no query agrees. "
 "The list's bounding box is the least box containing the members' boxes and contains every reported hit point.",
 ["histories", "inputs"], "all sequences of insertions, of any length, of boxes, spheres, transformed primitives and nested lists; all rays",
 "No test builds a list.", [PR], [m("shrinking extent while scanning members", PR), m("box union", PR)],
 [{"name": "primitives", "meaning": "members in insertion order", "where": PR}])

prop("C20", "A transformed primitive behaves as the moved object",
 "Placing a primitive with a transform (also repeatedly and around lists) makes a world-space ray hit it exactly when the ray carried to object space hits the original, at the same ray parameter, and the reported point, unit normal and tangents are the world-space images of the original ones (surface coordinates unchanged); in particular the point is the world ray's point at that parameter and the normal stays perpendicular to the tangents. "
 "The bounding box contains every reported point, and the yes/no query agrees.",
 ["inputs", "programs"], "all affine placements, nested to any depth, of boxes, spheres and lists; all rays",
 "No test places a primitive.", [PR, TR, BB], [m("ray to object space, interaction back to world space", PR)])

prop("C21", "Thin-lens camera rays obey the lens model",
 "Every generated ray starts on the lens (within its radius of the camera centre, in the lens plane), has a unit direction and unlimited extent, and all rays for one film position pass through one point of the plane of focus, at the focal distance in front of the camera and on the line through the lens centre. "
 "Across the film the central ray sweeps the horizontal field of view linearly in film position, left to right and bottom to top, with height equal to width over aspect ratio, and the view transform places camera space in the world.",
 ["inputs"], "all focal distances beyond the focal length, fields of view, lens radii, aspect ratios, view transforms, film and lens samples",
 "No test constructs a camera.", [TL, CA], [m("chief ray to the plane of focus", TL), m("film size from field of view", TL)])

prop("C22", "Disk sampling maps the square onto the disk area-preservingly",
 "Both square-to-disk maps send every point of the unit square into the unit disk, and cover it with uniform density: the polar map sends the point (x,y) to radius sqrt(y) and angle 2*pi*x, and the concentric map sends each concentric square to the circle of the same relative size, each quarter of it linearly onto the corresponding quarter circle (seen from the far corner: the map is applied to (1-2x, 1-2y)). "
 "The concentric map is continuous across the diagonals and sends the centre to the centre.",
 ["inputs"], "all points of the closed unit square, including edges, diagonals and centre",
 "No test calls either map.", [CA], [m("polar map", CA), m("quadrant split of the concentric map", CA)])

prop("C23", "Interval-valued transforms enclose every transform they stand for",
 "A transform built from interval parameters (translation, scale, the rotations, view, perspective, or a matrix with its computed inverse), and every product and inverse of such transforms, has matrix and inverse-matrix entries that contain those of the exact transform for every choice of parameter values inside the intervals; so do the computed inverse and the scalar multiple of an interval matrix. "
 "Points, vectors, normals and rays mapped forward or backward through it have components containing every exact image.",
 ["inputs", "programs"], "all programs of constructors, products and inverses over intervals that avoid degenerate parameters (zero scale, zero axis, coinciding view points); both float widths",
 "No test builds a transform over intervals.",
 [TR, TI, IG, IV], [m("generic constructors, product and inverse over interval scalars", TR), m("adjugate inverse", TI)],
 [{"name": "m, minv", "meaning": "interval matrix and inverse matrix", "where": TR}])

prop("C24", "Scalar elementary functions compute the function they name",
 "For 32- and 64-bit floats, square root and reciprocal are correctly rounded, and sine, cosine (also returned together), tangent, arcsine, arccosine, arctangent and two-argument arctangent are within two units in the last place of the exact value for every argument in the domain: all magnitudes, every quadrant and axis for the two-argument arctangent (argument order y, x; on the negative axis the sign of the zero chooses the side), and the limits at infinity of square root, reciprocal and arctangent.",
 ["inputs"], "all finite floats in the domain of each function",
 "The tests call these functions only inside other computations, at ordinary arguments and through approximate equality.",
 [SC], [m("forwarding to the platform functions per float type", SC)])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
