-------------------------------- MODULE Frob --------------------------------
(***************************************************************************)
(* The N-term truncation of Frobenius on a basis form e = x^b of pole order m:  *)
(*   F_N(e) = p^(n-1) sum_{j<N} D_j  sum_t [x^t](f^j)  {p (t + b + 1)}             *)
(* where D_j = (-1)^j sum_{i=j}^{N-1} C(m+i-1, m-1) C(i, j) and {u} is the class of   *)
(* x^u Omega / (x_0 .. x_n f^M), M = |u|/d, that is c(u) / (M-1)!.                     *)
(* Over Z/q everything is brought over the common denominator (p(m+N-1) - 1)!.          *)
(***************************************************************************)
EXTENDS NDSpace
BBinom(n, k) == IF k < 0 \/ k > n THEN "0" ELSE FoldLeft(LAMBDA acc, i : BDiv(BMul(acc, n - k + i), i), "1", [i \in 1..k |-> i])
Djm(m, N, j) == LET x == BSum([t \in 1..(N - j) |-> BMul(BBinom(m + j + t - 2, m - 1), BBinom(j + t - 1, j))]) IN IF j % 2 = 0 THEN x ELSE BNeg(x)
\* a(a+1)..b mod q
RangeProd(a, b, q) == FoldLeft(LAMBDA acc, i : MMul(acc, a + i - 1, q), OneOf(q), [i \in 1..Max2(0, b - a + 1) |-> i])
\* f^j for j = 0..J as functions on exponent vectors
Powers(f, n, d, J, q) ==
  FoldLeft(LAMBDA acc, j : Append(acc, LET P == acc[j] IN TLCEval([u \in Range1(Tuples(n + 1, j * d)) |-> LET T == SelectSeq(f, LAMBDA t : \A i \in 1..(n + 1) : t[1][i] <= u[i]) IN
              MDot([k \in 1..Len(T) |-> T[k][2]], [k \in 1..Len(T) |-> P[VSub(u, T[k][1])]], q)])),
           << [u \in Range1(Tuples(n + 1, 0)) |-> OneOf(q)] >>, [j \in 1..J |-> j])
ValFact(x, p) == LET RECURSIVE G(_) G(y) == IF y = 0 THEN 0 ELSE (y \div p) + G(y \div p) IN G(x)
\* vals[j+1]: the coordinates c(p (t + b + 1)) for t in the order of Tuples(n+1, j d)
FrobSum(n, d, p, q, pw, m, N, vals, len) ==
  LET top == p * (m + N - 1) - 1
      \* (top)! / (p e - 1)! for e = m + j, from the largest e down
      facts == FoldLeft(LAMBDA acc, k : <<MMul(acc[1], RangeProd(p * (m + N - 1 - k), p * (m + N - k) - 1, q), q)>> \o acc, <<OneOf(q)>>, [k \in 1..(N - 1) |-> k])
      term(j) == LET T == Tuples(n + 1, j * d) c == MMul(Djm(m, N, j), facts[j + 1], q)
                     S == SelectSeq([g \in 1..Len(T) |-> g], LAMBDA g : ~BIsZero(pw[j + 1][T[g]])) IN
                 MLin(<<c>>, <<MLin([k \in 1..Len(S) |-> pw[j + 1][T[S[k]]]], [k \in 1..Len(S) |-> vals[j + 1][S[k]]], len, q)>>, len, q)
  IN MLin([j \in 1..N |-> OneOf(q)], [j \in 1..N |-> term(j - 1)], len, q)
RECURSIVE StripP(_, _)
StripP(x, p) == IF x % p = 0 THEN StripP(x \div p, p) ELSE x
\* unit part of x! mod q
UnitFact(x, p, q) == FoldLeft(LAMBDA acc, i : LET y == StripP(i, p) IN MMul(acc, y, q), OneOf(q), [i \in 1..x |-> i])
\* <<defined, columns>>: sum / (top)! * p^(n-1)
FrobFinish(n, p, k, q, m, N, S) ==
  LET top == p * (m + N - 1) - 1 v == ValFact(top, p) inv == MInv(UnitFact(top, p, q), q) G == [i \in 1..Len(S) |-> MMul(S[i], inv, q)] IN
  IF v <= n - 1 THEN <<TRUE, [i \in 1..Len(G) |-> MMul(G[i], BPow(p, n - 1 - v), q)]>>
  ELSE LET P == BPow(p, v - (n - 1)) IN
       IF \A i \in 1..Len(G) : BIsZero(Red(BMod(G[i], P), q)) THEN <<TRUE, [i \in 1..Len(G) |-> Red(BDiv(G[i], P), q)]>> ELSE <<FALSE, <<>> >>
=============================================================================
