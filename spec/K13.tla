-------------------------------- MODULE K13 --------------------------------
(* random_SL_matrix: every draw lies in SL_n(F_p), and the draws are not concentrated on a part of it. *)
EXTENDS Big
Ps == <<2, 3, 5, 7, 23, 101, 10007, 1000003>>
Session(k) == LET p == Ps[1 + (k % Len(Ps))] n == 1 + Rnd(<<Seed, k>>, 6) IN
  [n |-> n, p |-> p, cmds |-> << [op |-> "ctx", p |-> p, prec |-> 1, seed |-> 1 + Rnd(<<Seed, k, 1>>, 100000)], [op |-> "sl", n |-> n, count |-> IF n > 4 THEN 6 ELSE 20] >>]
\* larger matrices and primes beyond 32 bits
BigPs == <<"2147483659", "4294967311", "1099511627791", "1152921504606846883">>
BigSess(k) == LET p == IF k % 2 = 0 THEN BigPs[1 + ((k \div 2) % Len(BigPs))] ELSE BStr(Ps[1 + ((k \div 2) % Len(Ps))]) n == IF k % 3 = 0 THEN 2 + Rnd(<<Seed, k, 9>>, 4) ELSE 7 + Rnd(<<Seed, k, 9>>, 8) IN
  [n |-> n, p |-> p, cmds |-> << [op |-> "ctx", p |-> p, prec |-> 1, seed |-> 1 + Rnd(<<Seed, k, 8>>, 100000)], [op |-> "sl", n |-> n, count |-> 4, big |-> TRUE] >>]
\* small groups, many draws: every element of SL_n(F_p) must turn up (1200 draws of at most 120 elements)
Small == LET q == << <<1, 2>>, <<1, 3>>, <<1, 7>>, <<2, 2>>, <<2, 3>>, <<2, 5>> >> IN [i \in 1..Len(q) |-> [n |-> q[i][1], p |-> q[i][2], cover |-> TRUE,
   cmds |-> << [op |-> "ctx", p |-> q[i][2], prec |-> 1, seed |-> 17 + Seed] >> \o [t \in 1..12 |-> [op |-> "sl", n |-> q[i][1], count |-> 250]]]]
Gen(x) == [k \in 1..Pick(160, 1600) |-> Session(k)] \o Small \o [k \in 1..Pick(24, 240) |-> BigSess(k)]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> {}]
DetOf(m) == IF Len(m) <= 5 THEN Det(m) ELSE LET c == CharPolyFL(m)[1] IN IF Len(m) % 2 = 0 THEN c ELSE BNeg(c)
Judge(sess, m) == IF Len(m) # sess.n \/ \E i \in 1..sess.n : Len(m[i]) # sess.n \/ \E j \in 1..sess.n : ~(BLe(0, m[i][j]) /\ BLt(m[i][j], sess.p)) THEN "not an n x n matrix over the field"
   ELSE IF ~BEq(BMod(DetOf(m), sess.p), 1) THEN "the determinant is not 1" ELSE "ok"
\* |SL_n(F_p)| for the groups that are enumerated
RECURSIVE GLOrder(_, _, _)
GLOrder(n, p, i) == IF i = n THEN 1 ELSE (PowInt(p, n) - PowInt(p, i)) * GLOrder(n, p, i + 1)
SLOrder(n, p) == GLOrder(n, p, 0) \div (p - 1)
ASSUME Mode = "model" => \A x \in {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<2, 5>>, <<3, 2>>} :
   Cardinality({m \in [1..x[1] -> [1..x[1] -> 0..(x[2] - 1)]] : BEq(BMod(Det(m), x[2]), 1 % x[2])}) = SLOrder(x[1], x[2])
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "ctx" THEN Ok(a)
  ELSE LET bad == {i \in 1..Len(e.res) : "cover" \notin DOMAIN sess \/ e.res[i] \notin a.seen} w == {Judge(sess, e.res[i]) : i \in bad} \ {"ok"} IN
       IF Len(e.res) # e.count THEN Bad("missing draws") ELSE IF w # {} THEN Bad(CHOOSE x \in w : TRUE)
       ELSE Ok([seen |-> a.seen \cup Range1(e.res), draws |-> a.draws + Len(e.res)])
InitSt(sess) == [seen |-> {}, draws |-> 0]
Final(sess, a) ==
  IF "cover" \in DOMAIN sess THEN <<Cardinality(a.seen) = SLOrder(sess.n, sess.p), "some matrices of determinant 1 are never drawn">>
  ELSE <<sess.n = 1 \/ Cardinality(a.seen) > 1, "every draw gives the same matrix">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
