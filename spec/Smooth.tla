------------------------------- MODULE Smooth -------------------------------
(***************************************************************************)
(* Smooth and non-degenerate equations over F_p, and constructions of          *)
(* equations known to be smooth, singular, non-degenerate or degenerate without   *)
(* computing ranks.                                                                 *)
(***************************************************************************)
EXTENDS DeRham, GF, MPoly
\* f restricted to the coordinates in I (a set), as a form in |I| variables
OnCoords(f, I) == LET v == SortSeq(SetToSeq(I), LAMBDA a, b : a < b) T == SelectSeq(f, LAMBDA t : \A i \in DOMAIN t[1] : i \in I \/ t[1][i] = 0) IN
                  [k \in 1..Len(T) |-> <<[j \in 1..Len(v) |-> T[k][1][v[j]]], T[k][2]>>]
SmoothForm(f, n, d, p) == IF Len(f) = 0 THEN FALSE ELSE IF n = 0 THEN \E t \in Range1(f) : ~BIsZero(Red(t[2], p)) ELSE IsSmoothAlg(f, n, d, p)
\* non-degenerate: the restriction to every coordinate subspace is smooth
NDByStrata(f, n, d, p) == \A I \in (SUBSET (1..(n + 1))) \ {{}} : SmoothForm(OnCoords(f, I), Cardinality(I) - 1, d, p)
ToForm(F, len, d) == LET T == Tuples(len, d) IN SelectSeq([j \in 1..Len(T) |-> <<T[j], F[T[j]]>>], LAMBDA t : ~BIsZero(t[2]))
RndForm(key, len, d, p) == LET T == Tuples(len, d) IN TLCEval([j \in 1..Len(T) |-> <<T[j], RndRes(key \o <<j>>, p)>>])
MulForm(f, df, g, dg, len, p) ==
  TLCEval([u \in TupSet(len, df + dg) |-> LET P == SelectSeq(f, LAMBDA t : \A i \in 1..len : t[1][i] <= u[i]) IN
     RDot([k \in 1..Len(P) |-> P[k][2]], [k \in 1..Len(P) |-> LET w == VSub(u, P[k][1]) I == SelectSeq(g, LAMBDA t : t[1] = w) IN IF Len(I) = 0 THEN RZero(p) ELSE I[1][2]], p)])
RECURSIVE RndInv(_, _, _)
RndInv(key, n, p) == LET M == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> RndRes(key \o <<i, j>>, p)])]) IN IF MRank(M, p) = n THEN M ELSE RndInv(key \o <<3>>, n, p)
Unit0(key, p) == IF BIsInt(p) THEN 1 + Rnd(key, p - 1) ELSE 1
\* ---- constructions: <<form, what is known>>
FermatForm(key, len, d, p) == [i \in 1..len |-> <<[j \in 1..len |-> IF j = i THEN d ELSE 0], Unit0(key \o <<i>>, p)>>]
\* x_i^(d-1) x_(i+1) cyclically
KleinForm(key, len, d, p) == [i \in 1..len |-> <<[j \in 1..len |-> (IF j = i THEN d - 1 ELSE 0) + (IF j = 1 + (i % len) THEN 1 ELSE 0)], Unit0(key \o <<i>>, p)>>]
\* singular at a rational point: no monomials with x_1^(d-1) or x_1^d, then moved
NodeForm(key, len, d, p) == SelectSeq(RndForm(key, len, d, p), LAMBDA t : t[1][1] < d - 1)
\* in the square of the ideal of two forms of degree e: singular where both vanish (len >= 3)
SquareIdeal(key, len, d, e, p) ==
  LET g == RndForm(key \o <<1>>, len, e, p) h == RndForm(key \o <<2>>, len, e, p) c == d - 2 * e
      gg == MulForm(g, e, g, e, len, p) gh == MulForm(g, e, h, e, len, p) hh == MulForm(h, e, h, e, len, p)
      m(x, k) == MulForm(ToForm(x, len, 2 * e), 2 * e, RndForm(key \o <<k>>, len, c, p), c, len, p)
      A == m(gg, 3) B == m(gh, 4) C == m(hh, 5)
  IN ToForm([u \in TupSet(len, d) |-> MAdd(MAdd(A[u], B[u], p), C[u], p)], len, d)
ProductForm(key, len, d, e, p) == ToForm(MulForm(RndForm(key \o <<1>>, len, e, p), e, RndForm(key \o <<2>>, len, d - e, p), d - e, len, p), len, d)
SquareFactor(key, len, d, e, p) == LET g == RndForm(key \o <<1>>, len, e, p) IN
   ToForm(MulForm(ToForm(MulForm(g, e, g, e, len, p), len, 2 * e), 2 * e, RndForm(key \o <<2>>, len, d - 2 * e, p), d - 2 * e, len, p), len, d)
Moved(key, f, len, d, p) == ToForm(Substitute(f, RndInv(key, len, p), len, d, p), len, d)
=============================================================================
