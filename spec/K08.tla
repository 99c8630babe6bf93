-------------------------------- MODULE K08 --------------------------------
(* Binomials, factorials, valuations: exact integer definitions. *)
EXTENDS Big
Fact(n, st0) == FoldLeft(LAMBDA a, i : BMul(a, i), "1", [i \in 1..Max2(0, n - st0 + 1) |-> st0 + i - 1])
Binom(n, k) == LET kk == Min2(k, n - k) IN BDiv(Fact(n, n - kk + 1), Fact(kk, 1))
RECURSIVE Pascal(_, _)
Pascal(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Pascal(n - 1, k - 1) + Pascal(n - 1, k)
ASSUME Mode = "model" => \A n \in 0..12 : \A k \in 0..n : BEq(Binom(n, k), Pascal(n, k)) /\ BEq(BMul(Binom(n, k), BMul(Fact(k, 1), Fact(n - k, 1))), Fact(n, 1))
\* valuation and unit part of a small number, and of the product s0..n (valuations add, unit parts multiply)
RECURSIVE V1(_, _)
V1(i, p) == IF i % p = 0 THEN 1 + V1(i \div p, p) ELSE 0
RECURSIVE U1(_, _)
U1(i, p) == IF i % p = 0 THEN U1(i \div p, p) ELSE i
ValProd(n, s0, p) == FoldLeft(LAMBDA a, i : a + V1(i, p), 0, [i \in 1..Max2(0, n - s0 + 1) |-> s0 + i - 1])
UnitProd(n, s0, p, q) == FoldLeft(LAMBDA a, i : MMul(a, U1(i, p), q), Red(1, q), [i \in 1..Max2(0, n - s0 + 1) |-> s0 + i - 1])
ValFact(n, p) == ValProd(n, 1, p)
ASSUME Mode = "model" => \A n \in 1..30, p \in {2, 3, 5, 7} : \A s0 \in 1..n : /\ ValProd(n, s0, p) = BVal(Fact(n, s0), p)
          /\ BEq(BMul(BPow(p, ValProd(n, s0, p)), UnitProd(n, s0, p, BPow(2, 200))), Fact(n, s0))
Int63 == BPow(2, 63)
BigB(n, t) == BDiv(BProd([i \in 1..t |-> BSub(n, t - i)]), Fact(t, 1))
RECURSIVE LargestPow(_, _)
LargestPow(p, m) == IF BCmp(BMul(p, p), m) >= 0 THEN BStr(p) ELSE LET w == LargestPow(p, BDiv(m, p)) IN BMul(p, w)
\* Legendre: the multiples of p, of p^2, ... up to n
RECURSIVE BigLeg(_, _)
BigLeg(n, p) == IF BCmp(n, p) < 0 THEN "0" ELSE LET m == BDiv(n, p) IN BAdd(m, BigLeg(m, p))
ASSUME Mode = "model" => \A n \in 0..200, p \in {2, 3, 5, 7} : BEq(BigLeg(n, p), ValFact(n, p))
ASSUME Mode = "model" => \A n \in 9..40, t \in 0..9 : BEq(BigB(n, t), Binom(n, n - t))
Ps == <<2, 3, 5, 7, 11, 13, 23, 101>>
BinomAll(n) == [cmds |-> FlattenSeq([k \in 1..(n + 1) |-> << [op |-> "binomial_ZZ", n |-> n, k |-> k - 1] >> \o (IF BLt(Binom(n, k - 1), Int63) THEN << [op |-> "binomial", n |-> n, k |-> k - 1] >> ELSE <<>>)])]
\* values beyond 64 bits (one per session: the call must not return a wrong number)
Over == LET q == << <<67, 33>>, <<67, 30>>, <<68, 30>>, <<66, 33>>, <<70, 35>>, <<80, 40>>, <<200, 100>>, <<67, 31>>, <<66, 32>>, <<69, 28>>, <<100, 18>> >> IN [i \in 1..Len(q) |-> [cmds |-> << [op |-> "binomial", n |-> q[i][1], k |-> q[i][2]] >>]]
\* large arguments: binomial(n, n - t) for n up to 2^62, the valuation of n! for n up to 2^63 - 1 (decimal strings)
BigBin(k) == [cmds |-> FlattenSeq([t \in 1..20 |->
     LET key == <<Seed, 7, k, t>> i == Rnd(key, 9) bits == <<9, 16, 31, 32, 33, 40, 50, 61, 62>>[i + 1] b0 == BAbs(RndInt(key, bits)) n == IF t % 5 = 0 THEN BSub(BPow(2, bits), Rnd(key, 3)) ELSE b0
         d == Min2(Rnd(key \o <<2>>, 9), IF BCmp(n, 9) < 0 THEN BInt(n) ELSE 9) w == BigB(n, d) IN
     << [op |-> "binomial_ZZ", n |-> BStr(n), k |-> BSub(n, d), t |-> d] >> \o (IF BLt(w, Int63) THEN << [op |-> "binomial", n |-> BStr(n), k |-> BSub(n, d), t |-> d] >> ELSE <<>>)])]
MidBin(k) == [cmds |-> FlattenSeq([t \in 1..20 |-> LET key == <<Seed, 8, k, t>> n == 71 + Rnd(key, 400) j == Rnd(key \o <<1>>, n + 1) IN << [op |-> "binomial_ZZ", n |-> n, k |-> j], [op |-> "binomial_ZZ", n |-> n, k |-> IF t = 1 THEN 100 % n ELSE n \div 2] >>])]
BigVal(k) == [cmds |-> [t \in 1..30 |-> LET key == <<Seed, 9, k, t>> bits == <<31, 32, 33, 48, 60, 62, 63>>[1 + Rnd(key, 7)]
       p == IF t % 4 = 0 THEN "2147483629" ELSE IF t % 4 = 1 THEN "3037000493" ELSE IF t % 8 = 2 THEN "4294967311" ELSE BStr(Ps[1 + Rnd(key \o <<1>>, Len(Ps))])
       n == IF t % 3 = 0 THEN BSub(BPow(2, bits), 1 + Rnd(key \o <<2>>, 2)) ELSE IF t % 3 = 1 THEN BAbs(RndInt(key, bits)) ELSE LET v == LargestPow(p, BPow(2, bits)) IN BSub(v, Rnd(key \o <<3>>, 2)) IN
       [op |-> "valfact", n |-> BStr(n), p |-> p, big |-> TRUE]]]
Mods == << <<2, 1>>, <<2, 7>>, <<3, 5>>, <<5, 1>>, <<5, 30>>, <<7, 40>>, <<11, 3>>, <<13, 12>>, <<23, 13>>, <<101, 20>>, <<2, 64>> >>
FactSession(k) == LET pk == Mods[1 + (k % Len(Mods))] IN
  [p |-> pk[1], k |-> pk[2], cmds |-> << [op |-> "ctx", p |-> pk[1], prec |-> pk[2]] >> \o FlattenSeq([t \in 1..25 |->
     LET key == <<Seed, k, t>> n == Rnd(key \o <<1>>, IF t % 3 = 0 THEN 260 ELSE 40) s0 == 1 + Rnd(key \o <<2>>, n + 2) s1 == IF t % 2 = 0 THEN 1 ELSE s0 pp == IF t % 5 = 0 THEN Ps[1 + Rnd(key \o <<3>>, Len(Ps))] ELSE pk[1] IN
     << [op |-> "factorial", n |-> n, start |-> s1], [op |-> "factorial_ZZ_p", n |-> n, start |-> s1],
        [op |-> "factorial_p_adic", n |-> n, p |-> pp, start |-> s1] @@ (IF t % 4 = 0 THEN [dflt |-> TRUE] ELSE <<>>),
        [op |-> "valfact", n |-> Rnd(key \o <<4>>, 3000), p |-> pp] >>])]
\* every n up to a bound for every small prime
ValAll(p) == [p |-> p, k |-> 3, cmds |-> << [op |-> "ctx", p |-> p, prec |-> 3] >> \o FlattenSeq([n \in 1..Pick(130, 600) |-> << [op |-> "valfact", n |-> n - 1, p |-> p] >> \o (IF n <= 60 THEN << [op |-> "factorial_p_adic", n |-> n - 1, p |-> p, start |-> 1] >> ELSE <<>>)])]
Gen(x) == [k \in 1..Pick(10, 100) |-> BigBin(k)] \o [k \in 1..Pick(8, 60) |-> MidBin(k)] \o [k \in 1..Pick(8, 80) |-> BigVal(k)] \o [n \in 1..Pick(71, 140) |-> BinomAll(n - 1)] \o Over \o [k \in 1..Pick(33, 330) |-> FactSession(k)] \o [i \in 1..Len(Ps) |-> ValAll(Ps[i])]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Q(sess) == BPow(sess.p, sess.k)
Judge(sess, e) ==
  CASE e.op = "ctx" -> "ok"
    [] e.op \in {"binomial", "binomial_ZZ"} -> IF BEq(e.res, IF "t" \in DOMAIN e THEN BigB(e.n, e.t) ELSE Binom(e.n, e.k)) THEN "ok" ELSE e.op \o " is wrong"
    [] e.op = "factorial" -> IF e.res = Fact(e.n, e.start) THEN "ok" ELSE "factorial is not the product start..n"
    [] e.op = "factorial_ZZ_p" -> IF BEq(e.res, BMod(Fact(e.n, e.start), Q(sess))) THEN "ok" ELSE "factorial over Z/m is not the product start..n"
    [] e.op = "valfact" /\ "big" \in DOMAIN e -> IF BEq(e.res, BigLeg(e.n, e.p)) THEN "ok" ELSE "valuation_of_factorial is not v_p(n!)"
    [] e.op = "valfact" -> IF e.res = (IF e.n < 2 THEN 0 ELSE ValFact(e.n, e.p)) THEN "ok" ELSE "valuation_of_factorial is not v_p(n!)"
    [] e.op = "factorial_p_adic" -> 
          IF e.res.val # ValProd(e.n, e.start, e.p) THEN "factorial_p_adic: wrong valuation" ELSE IF BEq(e.res.unit, UnitProd(e.n, e.start, e.p, Q(sess))) THEN "ok" ELSE "factorial_p_adic: wrong unit part"
    [] OTHER -> "unknown operation"
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN (IF e.op = "binomial" /\ e.died = "abort" /\ BLe(Int63, Binom(e.n, e.k)) THEN Ok(a) ELSE Bad(e.op \o " did not return: " \o e.died))
  ELSE LET w == Judge(sess, e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
