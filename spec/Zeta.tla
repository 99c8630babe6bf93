-------------------------------- MODULE Zeta --------------------------------
(***************************************************************************)
(* What the zeta polynomial Z of a smooth hypersurface f = 0 in P^n over F_p is: *)
(* the characteristic polynomial of Frobenius on the primitive middle cohomology,  *)
(* i.e. the monic polynomial whose roots alpha satisfy for every r                    *)
(*   #X(F_(p^r)) = sum_{i<n} p^(r i) + (-1)^(n-1) sum alpha^r,                            *)
(* a Weil polynomial of weight n - 1 and degree ((d-1)^(n+1) + (-1)^(n+1) (d-1)) / d.      *)
(* For diagonal equations sum c_i x_i^d with p = 1 mod d the roots are Jacobi sums.          *)
(***************************************************************************)
EXTENDS HodgeNum, MPoly, Fam, PointCount
\* ---- point counts
HypPlane(n, q) == BSum([i \in 1..n |-> BPow(q, i - 1)])
CountSum(f, n, p, r) == LET x == BSub(PCount(f, n, p, r), HypPlane(n, BPow(p, r))) IN IF n % 2 = 1 THEN x ELSE BNeg(x)
\* the power sums of the roots of z for r = 1..R are those of the point counts
CountsAgree(z, f, n, p, R) == LET s == PowerSums(z, R) IN \A r \in 1..R : BEq(s[r], CountSum(f, n, p, r))
\* how many extensions can be counted with at most `lim` univariate polynomials
RECURSIVE MaxR(_, _, _, _)
MaxR(n, p, lim, r) == IF BLe(BPow(p, (r + 1) * (n - 1)), lim) /\ BLe(BPow(p, r + 1), 2000000) THEN MaxR(n, p, lim, r + 1) ELSE r
\* ---- Jacobi sums: elements of Z[x]/(1 + x + .. + x^(d-1)) (d prime) or Z[x]/(x^2 + 1) (d = 4), as sequences
Phi(d) == IF d = 4 THEN 2 ELSE d - 1
\* from the group ring Z[x]/(x^d - 1), a sequence of d integers
ToRing(g, d) == IF d = 4 THEN <<BSub(g[1], g[3]), BSub(g[2], g[4])>> ELSE [i \in 1..(d - 1) |-> BSub(g[i], g[d])]
GMul(a, b, d) == [k \in 1..d |-> BSum([i \in 1..d |-> BMul(a[i], b[1 + ((k - i + d) % d)])])]
Grp(e, c, d) == [i \in 1..d |-> IF i = 1 + (e % d) THEN BStr(c) ELSE "0"]
RingAsG(a, d) == [i \in 1..d |-> IF i <= Len(a) THEN BStr(a[i]) ELSE "0"]
RMulZ(a, b, d) == ToRing(GMul(RingAsG(a, d), RingAsG(b, d), d), d)
RAddZ(a, b) == [i \in 1..Len(a) |-> BAdd(a[i], b[i])]
RZeroZ(d) == [i \in 1..Phi(d) |-> "0"]
ROneZ(d) == [i \in 1..Phi(d) |-> IF i = 1 THEN "1" ELSE "0"]
Order(g, p) == LET RECURSIVE G(_, _) G(x, k) == IF x = 1 THEN k ELSE G((x * g) % p, k + 1) IN G(g % p, 1)
PrimRoot(p) == CHOOSE g \in 1..(p - 1) : Order(g, p) = p - 1
\* ind[u] for u in 1..p-1
IndTable(p) == LET g == PrimRoot(p) IN FoldLeft(LAMBDA acc, k : [x |-> (acc.x * g) % p, t |-> [acc.t EXCEPT ![acc.x] = k - 1]], [x |-> 1, t |-> [u \in 1..(p - 1) |-> 0]], [k \in 1..(p - 1) |-> k]).t
\* sum over u + v = s, u, v # 0, of chi^a(u) chi^b(v), for s # 0: as counts per exponent
SumTwo(a, b, s, ind, p, d) == LET es == [u \in 1..(p - 1) |-> LET v == (s + p - u) % p IN IF v = 0 THEN -1 ELSE (a * ind[u] + b * ind[v]) % d] IN
    [k \in 1..d |-> BStr(Cardinality({u \in 1..(p - 1) : es[u] = k - 1}))]
Chi(a, u, ind, p, d) == Grp(a * ind[((u % p) + p) % p], 1, d)
\* J(a_1..a_n) = sum over u_1 + .. + u_n = -1, n = 1, 2, 3
JSum(as, ind, p, d) ==
  IF Len(as) = 1 THEN Chi(as[1], -1, ind, p, d)
  ELSE IF Len(as) = 2 THEN SumTwo(as[1], as[2], p - 1, ind, p, d)
  ELSE LET S1 == SumTwo(as[1], as[2], 1, ind, p, d)
           main == GMul(S1, SumTwo((as[1] + as[2]) % d, as[3], p - 1, ind, p, d), d)
       IN IF (as[1] + as[2]) % d # 0 THEN main
          ELSE [k \in 1..d |-> BAdd(main[k], GMul(Grp(0, p - 1, d), GMul(Chi(as[1], -1, ind, p, d), Chi(as[3], -1, ind, p, d), d), d)[k])]
\* the zeta polynomial of sum c_i x_i^d
DiagZeta(n, d, p, c) ==
  LET ind == TLCEval(IndTable(p))
      A == SetToSeq({a \in [1..(n + 1) -> 1..(d - 1)] : SumSeq(a) % d = 0})
      root(a) == LET tw == SumSeq([i \in 1..(n + 1) |-> (d - a[i]) * ind[((c[i] % p) + p) % p]])
                     J == GMul(Grp(tw, IF n % 2 = 1 THEN 1 ELSE -1, d), JSum([i \in 1..n |-> a[i + 1]], ind, p, d), d) IN TLCEval(ToRing(J, d))
      step(P, a) == LET al == root(a) IN TLCEval([k \in 1..(Len(P) + 1) |-> LET up == IF k > 1 THEN P[k - 1] ELSE RZeroZ(d) lo == IF k <= Len(P) THEN RMulZ(al, P[k], d) ELSE RZeroZ(d) IN
                      [i \in 1..Phi(d) |-> BSub(up[i], lo[i])]])
      P == FoldLeft(step, <<ROneZ(d)>>, A)
  IN IF \A k \in 1..Len(P) : \A i \in 2..Phi(d) : BIsZero(P[k][i]) THEN [k \in 1..Len(P) |-> P[k][1]] ELSE Assert(FALSE, "not rational")
\* ---- equations with small coefficients over F_p, and lifts of them
DiagTerms(n, d, c) == [i \in 1..(n + 1) |-> <<[j \in 1..(n + 1) |-> IF j = i THEN d ELSE 0], c[i]>>]
TermsOf(F, len, d) == LET T == Tuples(len, d) IN SelectSeq([j \in 1..Len(T) |-> <<T[j], F[T[j]]>>], LAMBDA t : ~BIsZero(t[2]))
\* an invertible matrix over F_p: a permutation times `shears` elementary matrices
Elem(key, len, p) == LET i == 1 + Rnd(key \o <<1>>, len) j0 == 1 + Rnd(key \o <<2>>, len - 1) j == IF j0 >= i THEN j0 + 1 ELSE j0 c == 1 + Rnd(key \o <<3>>, p - 1) IN
   [r \in 1..len |-> [t \in 1..len |-> IF r = t THEN 1 ELSE IF r = i /\ t = j THEN c ELSE 0]]
PermM(key, len) == LET h == Rnd(key, 6) p == IF h = 0 THEN [i \in 1..len |-> 1 + (i % len)] ELSE IF h = 1 THEN [i \in 1..len |-> len + 1 - i] ELSE [i \in 1..len |-> i] IN [r \in 1..len |-> [t \in 1..len |-> IF t = p[r] THEN 1 ELSE 0]]
RndGL(key, len, p, shears) == FoldLeft(LAMBDA M, t : MMatMul(M, Elem(key \o <<t, 9>>, len, p), p), PermM(key \o <<8>>, len), [t \in 1..shears |-> t])
\* representatives of the coefficients that are not reduced
LiftC(key, c, p, wide) == LET h == Rnd(key, 6) IN IF wide = 0 \/ h < 2 THEN c ELSE IF h < 4 THEN c + p * (Rnd(key \o <<1>>, 7) - 3) ELSE BAdd(c, BMul(p, RndInt(key \o <<2>>, IF h = 4 THEN 30 ELSE 80)))
LiftF(key, f, p, wide) == [t \in 1..Len(f) |-> <<f[t][1], LiftC(key \o <<t>>, f[t][2], p, wide)>>]
\* a smooth equation over F_p; style as in Fam, with residues mod p
RECURSIVE SmoothF(_, _, _, _, _, _)
SmoothF(key, n, d, p, style, t) == LET f == RandF(key \o <<t>>, n, d, p, p, style) IN
   IF t > 200 THEN Assert(FALSE, <<"no smooth equation", n, d, p, style>>) ELSE IF Len(f) > 0 /\ IsSmoothAlg(f, n, d, p) THEN f ELSE SmoothF(key, n, d, p, style, t + 1)
=============================================================================
