-------------------------------- MODULE Weil --------------------------------
(***************************************************************************)
(* Weil polynomials of weight `dim`: monic integer polynomials whose roots  *)
(* have absolute value p^(dim/2).  Sequences of coefficients, constant      *)
(* coefficient first, as decimal strings.                                   *)
(***************************************************************************)
EXTENDS Big
Deg(c) == Len(c) - 1
Cf(c, i) == c[i + 1]
\* exponent of the functional equation c_i = sign * p^Sh(i) * c_(deg-i) for i <= deg/2
Sh(deg, dim, i) == ((deg - 2 * i) * dim) \div 2
FunctionalEquation(c, p, dim, sign) ==
  \A i \in 0..(Deg(c) \div 2) : BEq(Cf(c, i), BMul(sign, BMul(BPow(p, Sh(Deg(c), dim, i)), Cf(c, Deg(c) - i))))
IsMonic(c) == BEq(c[Len(c)], 1)
\* necessary consequences of the Riemann hypothesis: |s_k|^2 <= deg^2 p^(dim k)
WeilBound(c, p, dim) ==
  LET s == PowerSums(c, Deg(c)) IN
  \A k \in 1..Deg(c) : BLe(BMul(s[k], s[k]), BMul(Deg(c) * Deg(c), BPow(p, dim * k)))
RECURSIVE ISqrt(_, _, _)   \* largest r in lo..hi-1 with r^2 <= x
ISqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF BLe(BMul(m, m), x) THEN ISqrt(x, m, hi) ELSE ISqrt(x, lo, m)
\* T^2 - a T + p^dim with a^2 <= 4 p^dim
Quad(a, p, dim) == <<BPow(p, dim), BNeg(a), "1">>
MaxTrace(p, dim) == IF dim % 2 = 0 THEN 2 * PowInt(p, dim \div 2) ELSE ISqrt(BMul(4, BPow(p, dim)), 0, 2 * PowInt(p, (dim + 1) \div 2) + 1)
RndTrace(key, p, dim) == LET A == MaxTrace(p, dim) k == Rnd(key \o <<1>>, 8) IN
   IF k = 0 THEN A ELSE IF k = 1 THEN -A ELSE IF k = 2 THEN 0 ELSE IF k = 3 THEN PowInt(p, dim \div 2) ELSE Rnd(key \o <<2>>, 2 * A + 1) - A
Lin(sgn, p, dim) == <<BMul(-sgn, BPow(p, dim \div 2)), "1">>      \* T - sgn p^(dim/2), dim even
\* a pseudo-random Weil polynomial of the given degree (even when dim is odd); the sign is fixed by sgnkind in the even case
RndWeil(key, p, dim, deg) ==
  LET nq == IF dim % 2 = 1 THEN deg \div 2 ELSE IF deg = 0 THEN 0 ELSE Rnd(key \o <<3>>, deg \div 2 + 1)
      nl == deg - 2 * nq
  IN PProd([i \in 1..nq |-> Quad(RndTrace(key \o <<4, i>>, p, dim), p, dim)] \o [i \in 1..nl |-> Lin(IF Rnd(key \o <<5, i>>, 2) = 0 THEN 1 ELSE -1, p, dim)])
\* sign of the functional equation
SignOf(c) == IF BCmp(c[1], 0) > 0 THEN 1 ELSE -1
SignFE(c) == SignOf(c)
\* ---- what precisions determine: prec[i+1] is the precision of coefficient i
Eff(prec, dim, i) == LET deg == Len(prec) - 1 IN
   IF 2 * i <= deg THEN Max2(prec[i + 1], prec[deg - i + 1] + Sh(deg, dim, i)) ELSE Max2(prec[i + 1], prec[deg - i + 1] - Sh(deg, dim, deg - i))
\* sufficient and stated by the code: k p^(prec of c_(deg-k)) > 2 deg p^(dim k / 2)
Enough(prec, p, dim, k) == LET deg == Len(prec) - 1 e == Eff(prec, dim, deg - k) IN
   BLt(BMul(4 * deg * deg, BPow(p, dim * k)), BMul(k * k, BPow(p, 2 * e)))
Sufficient(prec, p, dim) == \A k \in 1..(Len(prec) - 1) : Enough(prec, p, dim, k)
\* the sign of the functional equation is visible at these precisions
Visible(c, prec, p, dim) == \E i \in 1..(Deg(c) \div 2) :
   LET e == Min2(prec[i + 1], prec[Deg(c) - i + 1] + Sh(Deg(c), dim, i)) IN ~BIsZero(BMod(BMul(2, Cf(c, i)), BPow(p, e)))
\* smallest exponent e with k p^e > 2 deg p^(dim k/2)
RECURSIVE MinExp(_, _, _, _, _)
MinExp(p, dim, deg, k, e) == IF BLt(BMul(4 * deg * deg, BPow(p, dim * k)), BMul(k * k, BPow(p, 2 * e))) THEN e ELSE MinExp(p, dim, deg, k, e + 1)
=============================================================================
