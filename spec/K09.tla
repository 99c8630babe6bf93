-------------------------------- MODULE K09 --------------------------------
(***************************************************************************)
(* Changes of variables are substitutions.  The specification expands the   *)
(* products of linear forms exactly; sessions also compose two changes.     *)
(***************************************************************************)
EXTENDS MPoly
Shapes == << <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<3, 5>>, <<4, 2>>, <<4, 3>>, <<4, 4>>, <<1, 3>>, <<5, 2>>, <<3, 0>> >>
Rings == << <<"zz_p", 7, 1>>, <<"zz_p", 2, 1>>, <<"zz_p", 101, 1>>, <<"ZZ_p", 3, 4>>, <<"ZZ_p", 5, 20>>, <<"ZZ_p", 23, 30>>, <<"Z", 7, 1>>, <<"zz_p", 46337, 1>> >>
Q(r) == IF r[1] = "Z" THEN 0 ELSE IF r[1] = "zz_p" THEN r[2] ELSE ModPow(r[2], r[3])
RndC(key, q) == IF BIsZero(q) THEN RndInt(key, 1 + Rnd(key, 40)) ELSE IF Rnd(key \o <<1>>, 4) = 0 THEN Red(Rnd(key \o <<2>>, 3), q) ELSE RndRes(key, q)
RndF(key, len, d, q) == LET T == Tuples(len, d) all == [i \in 1..Len(T) |-> <<T[i], RndC(key \o <<i>>, q)>>] keep == SelectSeq([i \in 1..Len(T) |-> i], LAMBDA i : Rnd(key \o <<i, 9>>, 3) # 0) IN
   IF Len(keep) = 0 THEN <<all[1]>> ELSE [k \in 1..Len(keep) |-> all[keep[k]]]
RndM(key, len, q, kind) == [i \in 1..len |-> [j \in 1..len |->
   IF kind = 0 THEN (IF ((i + Rnd(key, len)) % len) + 1 = j THEN RRed(1, q) ELSE RRed(0, q))                 \* permutation
   ELSE IF kind = 1 /\ i # j THEN RRed(0, q) ELSE IF kind = 2 /\ Rnd(key \o <<i, j, 1>>, 2) = 0 THEN RRed(0, q) ELSE RndC(key \o <<i, j>>, q)]]
Session(k) ==
  LET key == <<Seed, k>> r == Rings[1 + (k % Len(Rings))] q == Q(r) sh == Shapes[1 + Rnd(key \o <<1>>, Len(Shapes))] len == sh[1] d == sh[2]
      f == RndF(key \o <<2>>, len, d, q) M == RndM(key \o <<3>>, len, q, Rnd(key \o <<4>>, 5)) N == RndM(key \o <<5>>, len, q, Rnd(key \o <<6>>, 5))
  IN [len |-> len, d |-> d, q |-> q, cmds |-> << [op |-> "ctx", p |-> r[2], prec |-> r[3]], [op |-> "cov", ring |-> r[1], f |-> f, m |-> M], [op |-> "cov", ring |-> r[1], f |-> f, m |-> N],
        [op |-> "cov", ring |-> r[1], f |-> RndF(key \o <<7>>, len, d, q), m |-> M] >>]
\* change_of_variables_monomial(u, v): prod_i (x_i + x v_i)^(u_i), returned as exponents of x... (see MonRule)
MonArgs(k) == LET len == 1 + Rnd(<<Seed, k, 1>>, 4) big == Rnd(<<Seed, k, 4>>, 6) = 0 IN [u |-> [i \in 1..len |-> Rnd(<<Seed, k, 2, i>>, IF big THEN 9 ELSE 4)], v |-> [i \in 1..len |-> Rnd(<<Seed, k, 3, i>>, 7) - 3]]
MonSession(k) == [len |-> 0, d |-> 0, q |-> 0, cmds |-> [t \in 1..6 |-> LET a == MonArgs(1000 * k + t) IN [op |-> "covmon", u |-> a.u, v |-> a.v]]]
Gen(x) == [k \in 1..Pick(160, 1600) |-> Session(k)] \o [k \in 1..Pick(20, 200) |-> MonSession(k)]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
MonCoef(u, v, w) == BProd([i \in 1..Len(u) |-> BMul(BDiv(BProd([t \in 1..(u[i] - w[i]) |-> u[i] - t + 1]), BProd([t \in 1..(u[i] - w[i]) |-> t])), BPow(v[i], u[i] - w[i]))])
RECURSIVE Boxes(_, _)
Boxes(u, i) == IF i > Len(u) THEN {<<>>} ELSE {<<k>> \o t : k \in 0..u[i], t \in Boxes(u, i + 1)}
JudgeMon(e) ==
  LET u == e.u n == Len(u) keys == {t[1] : t \in Range1(e.res)} IN
  IF Cardinality(keys) # Len(e.res) THEN "a monomial is listed twice"
  ELSE IF \E t \in Range1(e.res) : Len(t[1]) # n + 1 \/ (\E i \in 1..n : t[1][i] < 0 \/ t[1][i] > u[i]) \/ t[1][n + 1] # SumSeq(u) - SumSeq(SubSeq(t[1], 1, n)) THEN "a monomial does not belong to the expansion"
  ELSE IF \E t \in Range1(e.res) : ~BEq(t[2], MonCoef(u, e.v, SubSeq(t[1], 1, n))) THEN "a coefficient of the expansion is wrong"
  ELSE IF \E w \in Boxes(u, 1) : ~BIsZero(MonCoef(u, e.v, w)) /\ Append(w, SumSeq(u) - SumSeq(w)) \notin keys THEN "a term of the expansion is missing"
  ELSE "ok"
Judge(sess, e) ==
  IF e.op = "ctx" THEN "ok" ELSE IF e.op = "covmon" THEN JudgeMon(e)
  ELSE LET want == Substitute(e.f, e.m, sess.len, sess.d, sess.q) IN
       IF \E t \in Range1(e.res) : t[1] \notin DOMAIN want THEN "the result is not homogeneous of the same degree"
       ELSE IF CoefFun(e.res, sess.len, sess.d, sess.q) # want THEN "change_of_variables is not the substitution x -> Mx" ELSE "ok"
Step(sess, a, e) == IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died) ELSE LET w == Judge(sess, e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
\* the expansion agrees with evaluation at points, and composing substitutions multiplies matrices
ASSUME Mode = "model" => \A k \in 1..40 : LET key == <<k>> q == 101 len == 3 d == 3 f == RndF(key, len, d, q) M == RndM(key \o <<1>>, len, q, 4) N == RndM(key \o <<2>>, len, q, 4)
     x == [i \in 1..len |-> Rnd(key \o <<3, i>>, q)] F == Substitute(f, M, len, d, q) T == Tuples(len, d) g == [i \in 1..Len(T) |-> <<T[i], F[T[i]]>>] IN
     /\ EvalP(g, x, q) = EvalP(f, MMatVec(M, x, q), q)
     /\ Substitute(g, N, len, d, q) = Substitute(f, MMatMul(M, N, q), len, d, q)
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
