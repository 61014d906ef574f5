--------------------------------- MODULE Slice ---------------------------------
(***************************************************************************)
(* Planes through the star, normal to a coordinate axis, and what a map of *)
(* the potential field on one has to show.  A point of the plane has the   *)
(* coordinates (u, v) along the two remaining axes in their usual order.   *)
(***************************************************************************)
EXTENDS Geometry, Pfss
Normals == {"x", "y", "z"}
AxisNames == <<"x", "y", "z">>
PlaneAxes(n) == CASE n = "x" -> <<2, 3>> [] n = "y" -> <<1, 3>> [] n = "z" -> <<1, 2>>
PlanePoint(n, u, v) == CASE n = "x" -> <<FZero, u, v>> [] n = "y" -> <<u, FZero, v>> [] n = "z" -> <<u, v, FZero>>
InPlane(n, w) == <<w[PlaneAxes(n)[1]], w[PlaneAxes(n)[2]]>>
(* spherical and Cartesian components of the field at a point other than the origin *)
FieldAt(cs, p, r0, rss) == PfssField(cs, DirOf(p), Norm(p), r0, rss)
VectorAt(cs, p, r0, rss) == LET d == DirOf(p) IN Apply(Columns(d), PfssField(cs, d, Norm(p), r0, rss))
(* plane vectors *)
Dot2(a, b) == FAdd(FMul(a[1], b[1]), FMul(a[2], b[2]))
Len2(a) == FSqrt(Dot2(a, a))
Sum2(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
(* the angle between a and b has a cosine of at least p/q *)
Along(a, b, p, q) == FLe(FMul(FRat(p, q), FMul(Len2(a), Len2(b))), Dot2(a, b))
=============================================================================
