-------------------------------- MODULE MPoly -------------------------------
(***************************************************************************)
(* Homogeneous multivariate polynomials over Z (q = 0) or Z/q, as         *)
(* functions from the exponent vectors of a fixed degree to coefficients.   *)
(***************************************************************************)
EXTENDS Big
RAdd(a, b, q) == IF BIsZero(q) THEN BAdd(a, b) ELSE MAdd(a, b, q)
RMul(a, b, q) == IF BIsZero(q) THEN BMul(a, b) ELSE MMul(a, b, q)
RRed(a, q) == IF BIsZero(q) THEN BStr(a) ELSE Red(a, q)
RZero(q) == IF BIsZero(q) THEN "0" ELSE Red(0, q)
ROne(q) == IF BIsZero(q) THEN "1" ELSE Red(1, q)
RDot(u, v, q) == IF BIsZero(q) THEN BDot(u, v) ELSE MDot(u, v, q)
TupSet(len, d) == Range1(Tuples(len, d))
ZeroP(len, d, q) == [u \in TupSet(len, d) |-> RZero(q)]
\* multiply F (degree d) by the linear form with coefficients a
TimesLin(F, d, a, len, q) == TLCEval([u \in TupSet(len, d + 1) |->
    LET I == SelectSeq([i \in 1..len |-> i], LAMBDA i : u[i] > 0) IN RDot([k \in 1..Len(I) |-> a[I[k]]], [k \in 1..Len(I) |-> F[[u EXCEPT ![I[k]] = @ - 1]]], q)])
\* the product of linear forms prod_i (M_i . x)^(m_i)
PowLin(m, M, len, q) ==
  LET ix == FlattenSeq([i \in 1..len |-> [k \in 1..m[i] |-> i]])
      step(acc, i) == [F |-> TimesLin(acc.F, acc.d, M[i], len, q), d |-> acc.d + 1]
  IN FoldLeft(step, [F |-> [u \in TupSet(len, 0) |-> ROne(q)], d |-> 0], ix).F
\* f given as a sequence of <<monomial, coefficient>>; f(Mx): x_i replaced by row i of M
Substitute(f, M, len, d, q) ==
  LET ps == TLCEval([t \in 1..Len(f) |-> PowLin(f[t][1], M, len, q)]) cs == TLCEval([t \in 1..Len(f) |-> RRed(f[t][2], q)])
  IN TLCEval([u \in TupSet(len, d) |-> RDot(cs, [t \in 1..Len(f) |-> ps[t][u]], q)])
\* coefficient function of a list of terms (missing terms are 0; later duplicates would overwrite)
CoefFun(f, len, d, q) == [u \in TupSet(len, d) |-> LET I == SelectSeq(f, LAMBDA t : t[1] = u) IN IF Len(I) = 0 THEN RZero(q) ELSE RRed(I[1][2], q)]
EvalP(f, x, q) == RDot([t \in 1..Len(f) |-> RRed(f[t][2], q)],
    [t \in 1..Len(f) |-> FoldLeft(LAMBDA a, i : RMul(a, IF BIsZero(q) THEN BPow(x[i], f[t][1][i]) ELSE MPow(x[i], f[t][1][i], q), q), ROne(q), [i \in 1..Len(x) |-> i])], q)
=============================================================================
