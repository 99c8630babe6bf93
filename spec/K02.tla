-------------------------------- MODULE K02 --------------------------------
(***************************************************************************)
(* The solver over Z/p^k.  Same contract as over F_p, with the identity     *)
(* required modulo p^k and B a cokernel basis of T mod p.                   *)
(***************************************************************************)
EXTENDS Big
IncreasingIndices(B, m) == /\ \A i \in 1..Len(B) : B[i] \in 0..(m - 1)
                           /\ \A i \in 1..(Len(B) - 1) : B[i] < B[i + 1]
TJ(T, B, m, n, q) == [i \in 1..m |-> [j \in 1..(n + Len(B)) |-> IF j <= n THEN Red(T[i][j], q) ELSE IF B[j - n] = i - 1 THEN OneOf(q) ELSE ZeroOf(q)]]
IdM(m, q) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN OneOf(q) ELSE ZeroOf(q)]]
Contract(T, m, n, B, U, p, q) ==
  IF ~IncreasingIndices(B, m) THEN "B is not an increasing list of row indices"
  ELSE LET X == TJ(T, B, m, n, q) IN
       IF Len(B) # m - (IF n = 0 THEN 0 ELSE MRank(MRed(T, p), p)) \/ MRank(MRed(X, p), p) # m THEN "the unit vectors of B are not a basis of the cokernel modulo p"
       ELSE IF Len(U) # n + Len(B) \/ \E i \in 1..Len(U) : Len(U[i]) # m THEN "U has the wrong shape"
       ELSE IF MMatMul(X, U, q) # IdM(m, q) THEN "(T+J)U is not the identity modulo p^k"
       ELSE "ok"

Hows == <<"flint", "ntl", "flint_direct", "ntl_direct", "default">>
MkMat(m, n, F(_, _)) == [r |-> m, c |-> n, m |-> [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]]
\* rank at most r plus p times an arbitrary matrix when drop is set: the rank may drop modulo p
RandMat(key, m, n, r, p, q, drop) ==
  LET A == [i \in 1..m |-> [t \in 1..Max2(1, r) |-> IF r = 0 THEN 0 ELSE RndRes(key \o <<1, i, t>>, q)]]
      C == [t \in 1..Max2(1, r) |-> [j \in 1..n |-> RndRes(key \o <<2, t, j>>, q)]]
      P == IF n = 0 THEN [i \in 1..m |-> <<>>] ELSE MMatMul(A, C, q)
  IN MkMat(m, n, LAMBDA i, j : IF drop THEN MAdd(P[i][j], MMul(p, RndRes(key \o <<3, i, j>>, q), q), q) ELSE Red(P[i][j], q))
RandSparse(key, m, n, q) == MkMat(m, n, LAMBDA i, j : IF Rnd(key \o <<3, i, j>>, 3) # 0 \/ Rnd(key \o <<4, i>>, 5) = 0 \/ Rnd(key \o <<5, j>>, 5) = 0 THEN 0 ELSE RndRes(key \o <<6, i, j>>, q))
\* pairs (p, k): moduli below 2^15, around 2^31, 2^62 .. 2^64 and far beyond one word, powers of two among them
PK == << <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<5, 3>>, <<7, 5>>, <<2, 15>>, <<2, 31>>, <<3, 19>>, <<3, 20>>, <<7, 11>>, <<2, 62>>, <<2, 63>>, <<2, 64>>, <<3, 40>>, <<3, 41>>, <<5, 27>>,
         <<5, 28>>, <<7, 30>>, <<11, 19>>, <<23, 14>>, <<101, 9>>, <<101, 10>>, <<32003, 4>>, <<32003, 5>>, <<2, 200>>, <<3, 65>>, <<13, 33>>, <<46337, 2>>, <<17, 1>> >>
RandSession(x) ==
  LET pk == PK[1 + (x % Len(PK))]
      p == pk[1] k == pk[2] q == ModPow(p, k)
      Cmd(t) == LET m == 1 + Rnd(<<Seed, x, t, 1>>, Pick(7, 12)) n == Rnd(<<Seed, x, t, 2>>, Pick(9, 14)) key == <<Seed, x, t>> mode == Rnd(<<Seed, x, t, 4>>, 4)
                    T == IF mode = 0 THEN RandSparse(key, m, n, q) ELSE RandMat(key, m, n, Rnd(<<Seed, x, t, 3>>, Min2(m, n) + 1), p, q, mode = 1)
                IN [h \in 1..2 |-> LET c == [op |-> "solve_padic", T |-> T, k |-> k, how |-> Hows[1 + Rnd(<<Seed, x, t, h, 9>>, 5)]] IN
                      IF Rnd(<<Seed, x, t, h, 8>>, 4) = 0 THEN c @@ [dirty |-> IF n = 0 THEN m ELSE 2] ELSE c]
  IN [p |-> p, k |-> k, cmds |-> << [op |-> "ctx", p |-> p, prec |-> k] >> \o FlattenSeq([t \in 1..8 |-> Cmd(t)])]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, [i \in 1..Pick(120, 1500) |-> RandSession(i)])

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad("the call did not return: " \o e.died)
  ELSE IF e.op = "ctx" THEN Ok(a)
  ELSE LET w == Contract(e.T.m, e.T.r, e.T.c, e.res.B, e.res.U, sess.p, ModPow(sess.p, sess.k))
       IN IF ~e.Tsame THEN Bad("the input matrix was modified") ELSE IF w = "ok" THEN Ok(a) ELSE Bad(e.how \o ": " \o w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
