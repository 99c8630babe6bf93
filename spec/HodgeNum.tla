------------------------------ MODULE HodgeNum ------------------------------
(* Hodge numbers of hypersurfaces and what they say about the precision of the characteristic polynomial of Frobenius. *)
EXTENDS Weil
DimPrim(n, d) == (PowInt(d - 1, n + 1) + (IF n % 2 = 1 THEN 1 ELSE -1) * (d - 1)) \div d
\* coefficients of (1 + t + .. + t^(d-2))^(n+1): Hodge numbers at degrees (i+1) d - (n+1)
MulTrunc(a, d) == [k \in 1..(Len(a) + d - 2) |-> FoldSeq(LAMBDA x, y : x + y, 0, [j \in 1..(d - 1) |-> IF k - j + 1 \in 1..Len(a) THEN a[k - j + 1] ELSE 0])]
PrimPoly(n, d) == FoldLeft(LAMBDA a, i : MulTrunc(a, d), <<1>>, [i \in 1..(n + 1) |-> i])
Hodge(n, d) == LET c == PrimPoly(n, d) IN [i \in 1..n |-> c[i * d - n]]       \* i-th pole order, degree i*d-(n+1), index +1
VFact(m, p) == LET RECURSIVE V(_) V(k) == IF k = 0 THEN 0 ELSE (k \div p) + V(k \div p) IN V(m)
RelPrec(N, n) == [i \in 1..n |-> N[i] + i - n]
\* loss for pole order i (1-based) with N[i] terms
NeedWork(N, n, p) == LET r == RelPrec(N, n) IN
   SeqMax([i \in 1..n |-> IF N[i] = 0 THEN 0 ELSE r[i] + Max2(0, VFact(p * (i - 1 + N[i]) - 1, p) - (i - 1))])
\* slopes of the Hodge polygon, increasing
RECURSIVE Rep(_, _)
Rep(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Rep(x, k - 1)
SlopeSeq(n, d) == LET h == Hodge(n, d) IN FlattenSeq([k \in 1..n |-> LET i == n + 1 - k IN Rep(n - i, h[i])])
\* precision of the k-th elementary symmetric function when piece i is known modulo p^abs[i]
SumOfSmallestWithout(h, n, x, cnt) ==   \* sum of cnt smallest slopes once one slope x has been removed
  LET avail == [sl \in 0..(n - 1) |-> h[n - sl] - (IF sl = x THEN 1 ELSE 0)]
      F[sl \in 0..n, left \in 0..cnt] == IF left = 0 \/ sl = n THEN 0 ELSE LET t == Min2(avail[sl], left) IN sl * t + F[sl + 1, left - t]
  IN F[0, cnt]
CoefPrec(n, d, abs, k) == LET h == Hodge(n, d) IN SeqMin([i \in 1..n |-> abs[i] + SumOfSmallestWithout(h, n, n - i, k - 1)])
=============================================================================
