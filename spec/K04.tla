-------------------------------- MODULE K04 --------------------------------
(***************************************************************************)
(* charpoly_frob: recovering a Weil polynomial from an approximation.       *)
(* Generator: a Weil polynomial c, precisions that determine it, and a      *)
(* matrix whose characteristic polynomial is congruent to c coefficient by  *)
(* coefficient.  Acceptance: the answer is c.                               *)
(***************************************************************************)
EXTENDS Weil
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
Companion(c) == LET n == Deg(c) IN [i \in 1..n |-> [j \in 1..n |-> IF j = n THEN BNeg(c[i]) ELSE IF j = i - 1 THEN "1" ELSE "0"]]
\* conjugate by elementary matrices: row_i += t row_j, then column_j -= t column_i
Conj(M, i, j, t) == LET n == Len(M)
                        A == [r \in 1..n |-> IF r = i THEN [c \in 1..n |-> BAdd(M[i][c], BMul(t, M[j][c]))] ELSE M[r]]
                    IN [r \in 1..n |-> [c \in 1..n |-> IF c = j THEN BSub(A[r][j], BMul(t, A[r][i])) ELSE A[r][c]]]
Mangle(M, key, cnt) == LET n == Len(M) IN IF n < 2 THEN M ELSE
   FoldLeft(LAMBDA A, k : LET i == 1 + Rnd(key \o <<k, 1>>, n) j0 == 1 + Rnd(key \o <<k, 2>>, n) j == IF j0 = i THEN 1 + (i % n) ELSE j0 IN Conj(A, i, j, Rnd(key \o <<k, 3>>, 5) - 2), M, [k \in 1..cnt |-> k])
Perturb(c, prec, p, key, kind) == [i \in 1..Len(c) |-> IF i = Len(c) THEN c[i]
     ELSE LET t == BMul(BPow(p, prec[i]), IF kind = 0 THEN 0 ELSE IF kind = 1 THEN -1 ELSE RndInt(key \o <<i>>, 1 + Rnd(key \o <<i, 1>>, 40))) IN BAdd(c[i], t)]
\* random sufficient precisions: for each pair of coefficients at least one of the two carries the needed information
RndPrec(key, p, dim, deg, extra) ==
  LET need(i) == IF i = deg THEN 1 ELSE MinExp(p, dim, deg, deg - i, 0)       \* needed for coefficient i
      lo(i) == LET hi == need(deg - i) a == need(i) IN Max2(hi, a - Sh(deg, dim, i))    \* via coefficient deg-i, i <= deg/2
      up(i) == Max2(need(i), need(deg - i) + Sh(deg, dim, i))                       \* via coefficient i
      side(i) == Rnd(key \o <<i, 1>>, 3)
      x(i) == IF extra = 0 THEN 0 ELSE Rnd(key \o <<i, 2>>, extra + 1)
      \* a coefficient that is not the carrier may be known less well, but never beyond the carrier's information
      weak(i, m) == Rnd(key \o <<i, 3>>, m + 1)
      val(i) == IF 2 * i = deg THEN need(i) + x(i)
                ELSE IF 2 * i < deg THEN (IF side(i) = 0 THEN weak(i, up(i)) ELSE IF side(i) = 1 THEN up(i) + x(i) ELSE lo(i) + Sh(deg, dim, i) + x(i))
                ELSE LET j == deg - i IN (IF side(j) = 1 THEN weak(i, lo(j)) ELSE lo(j) + x(i))
  IN [i \in 1..(deg + 1) |-> val(i - 1)]
K3Prec(lo) == [i \in 1..22 |-> IF i = 22 THEN lo ELSE 21 - i + lo]
Cases == << <<1, 2>>, <<1, 2>>, <<1, 4>>, <<1, 6>>, <<1, 8>>, <<1, 12>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 9>>, <<2, 21>>, <<2, 20>>, <<3, 2>>, <<3, 4>>, <<4, 3>>, <<4, 4>>, <<1, 20>> >>
Primes == <<2, 3, 5, 7, 11, 13, 17, 23, 43, 101, 499, 9973>>
Case(x, t) ==
  LET key == <<Seed, x, t>>
      dd == Cases[1 + Rnd(key \o <<1>>, Len(Cases))]
      dim == dd[1] deg == dd[2]
      p == IF dim >= 3 THEN RndEl(key \o <<2>>, <<2, 3, 5, 7, 11>>) ELSE IF dim = 2 /\ deg >= 9 THEN RndEl(key \o <<2>>, <<3, 5, 7, 11, 43, 101>>) ELSE RndEl(key \o <<2>>, Primes)
      c == RndWeil(key \o <<3>>, p, dim, deg)
      prec == IF deg = 21 /\ Rnd(key \o <<6>>, 2) = 0 /\ p >= 43 THEN K3Prec(2) ELSE RndPrec(key \o <<4>>, p, dim, deg, RndEl(key \o <<7>>, <<0, 0, 1, 3>>))
      ok == Sufficient(prec, p, dim) /\ (SignFE(c) = 1 \/ Visible(c, prec, p, dim))
      c2 == Perturb(c, prec, p, key \o <<5>>, Rnd(key \o <<8>>, 4))
      M == Mangle(Companion(c2), key \o <<9>>, RndEl(key \o <<10>>, <<0, 2, deg>>))
  IN IF ok THEN << [op |-> "charpoly_frob", m |-> [r |-> deg, c |-> deg, m |-> M], prec |-> prec, p |-> p, dim |-> dim, want |-> c] >> ELSE <<>>
\* exhaustive: every elliptic trace for small p with the table precisions, every surface factor pair
EllPrec(p) == IF p >= 17 THEN <<3, 1, 1>> ELSE IF p = 2 THEN <<3, 3, 2>> ELSE <<2, 2, 2>>
Ell(p) == LET A == MaxTrace(p, 1) IN [k \in 1..(2 * A + 1) |-> LET c == Quad(k - 1 - A, p, 1) IN
   [op |-> "charpoly_frob", m |-> [r |-> 2, c |-> 2, m |-> Companion(Perturb(c, EllPrec(p), p, <<Seed, p, k>>, 2))], prec |-> EllPrec(p), p |-> p, dim |-> 1, want |-> c]]
Genus2(p) == LET A == MaxTrace(p, 1) prec == RndPrec(<<Seed, p>>, p, 1, 4, 0) IN
   FlattenSeq([a \in 1..(2 * A + 1) |-> [b \in 1..(2 * A + 1) |-> LET c == PMul(Quad(a - 1 - A, p, 1), Quad(b - 1 - A, p, 1)) IN
   [op |-> "charpoly_frob", m |-> [r |-> 4, c |-> 4, m |-> Companion(Perturb(c, prec, p, <<Seed, p, a, b>>, 2))], prec |-> prec, p |-> p, dim |-> 1, want |-> c]]])
Gen(x) == [k \in 1..Pick(60, 700) |-> [cmds |-> FlattenSeq([t \in 1..20 |-> Case(k, t)])]] \o
          [k \in 1..10 |-> [cmds |-> Ell(<<2, 3, 5, 7, 11, 13, 17, 19, 23, 101>>[k])]] \o [k \in 1..Pick(4, 8) |-> [cmds |-> Genus2(<<2, 3, 5, 7, 11, 13, 17, 19>>[k])]]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
\* consistency of the specification: what is generated is a Weil polynomial determined by its precisions
Lemma(e) == IsMonic(e.want) /\ FunctionalEquation(e.want, e.p, e.dim, SignFE(e.want)) /\ WeilBound(e.want, e.p, e.dim) /\ Sufficient(e.prec, e.p, e.dim)
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF ~Lemma(e) THEN Bad("generator error: not a determined Weil polynomial")
  ELSE IF "died" \in DOMAIN e THEN Bad("charpoly_frob did not return: " \o e.died)
  ELSE IF e.res # e.want THEN Bad("charpoly_frob did not recover the Weil polynomial")
  ELSE IF ~e.precsame THEN Bad("the caller's precision vector was modified") ELSE Ok(a)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
