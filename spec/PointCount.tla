----------------------------- MODULE PointCount -----------------------------
(* The number of points in P^n over F_(p^r) of a homogeneous equation (a sequence of <<exponents, coefficient>>).  TLC evaluates PCount
   with the Java override of the same name; PointCountSelfTest compares the override with this definition on small fields. *)
EXTENDS GF
PCount(f, n, p, r) ==
  LET G == GFMake(p, r) g == SelectSeq([t \in 1..Len(f) |-> <<f[t][1], BInt(BMod(f[t][2], p))>>], LAMBDA t : t[2] # 0) IN
  IF Len(g) = 0 THEN Cardinality(ProjPoints(G, n)) ELSE Cardinality({x \in ProjPoints(G, n) : GFEval(G, g, x) = 0})
=============================================================================
