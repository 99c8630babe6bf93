-------------------------------- MODULE K01 --------------------------------
(***************************************************************************)
(* The linear solver over F_p.  Abstract operation: given T (m x n), return *)
(* any (B, U) satisfying the contract; the code may choose which.           *)
(***************************************************************************)
EXTENDS Util, BigInt, Json

IncreasingIndices(B, m) == /\ \A i \in 1..Len(B) : B[i] \in 0..(m - 1)
                           /\ \A i \in 1..(Len(B) - 1) : B[i] < B[i + 1]
WellShaped(U, r, c) == Len(U) = r /\ \A i \in 1..r : Len(U[i]) = c
\* (T + J) U = 1 modulo q, where J has the unit vectors of the indices B as columns
RightInverse(T, B, U, m, n, q) ==
  LET TJ == [i \in 1..m |-> [j \in 1..(n + Len(B)) |-> IF j <= n THEN T[i][j] ELSE IF B[j - n] = i - 1 THEN 1 ELSE 0]]
  IN MMatMul(TJ, U, q) = [i \in 1..m |-> [j \in 1..m |-> Red(IF i = j THEN 1 ELSE 0, q)]]
\* contract over Z/q, q a power of p
Contract(T, m, n, B, U, p, q) ==
  IF ~IncreasingIndices(B, m) THEN "B is not an increasing list of row indices"
  ELSE IF Len(B) # m - MRank(T, p) THEN "B does not have the size of the cokernel"
  ELSE IF ~WellShaped(U, n + Len(B), m) THEN "U has the wrong shape"
  ELSE IF ~RightInverse(T, B, U, m, n, q) THEN "(T+J)U is not the identity"
  ELSE "ok"

\* ------------------------------------------------------------------ generation
Hows == <<"flint", "ntl", "flint_direct", "ntl_direct">>
Mat(m, n, F(_, _)) == [r |-> m, c |-> n, m |-> [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]]
AllMats(m, n, p) == LET q == SetToSeq([(1..m) \X (1..n) -> 0..(p - 1)]) IN [k \in 1..Len(q) |-> Mat(m, n, LAMBDA i, j : q[k][<<i, j>>])]
\* a matrix of rank at most r: product of random m x r and r x n
RandRank(key, m, n, r, p) ==
  LET A == [i \in 1..m |-> [t \in 1..r |-> Rnd(key \o <<1, i, t>>, p)]]
      C == [t \in 1..r |-> [j \in 1..n |-> Rnd(key \o <<2, t, j>>, p)]]
  IN [r |-> m, c |-> n, m |-> IF r = 0 THEN [i \in 1..m |-> [j \in 1..n |-> 0]] ELSE MMatMul(A, C, p)]
\* sparse: each entry non-zero with probability 1/3, plus zero rows/columns/duplicates
RandSparse(key, m, n, p) == Mat(m, n, LAMBDA i, j : IF Rnd(key \o <<3, i, j>>, 3) # 0 \/ Rnd(key \o <<4, i>>, 5) = 0 \/ Rnd(key \o <<5, j>>, 5) = 0 THEN 0 ELSE Rnd(key \o <<6, i, j>>, p))
Cmds(p, mats, key) == <<[op |-> "ctx", p |-> p, prec |-> 1]>> \o
   FlattenSeq([k \in 1..Len(mats) |-> [h \in 1..2 |-> IF Rnd(key \o <<k, h>>, 4) = 0
       THEN [op |-> "solve_p", T |-> mats[k], how |-> Hows[2 + h]]
       ELSE IF Rnd(key \o <<k, h>>, 4) = 1 THEN [op |-> "solve_p", T |-> mats[k], how |-> Hows[h], dirty |-> mats[k].r]
       ELSE [op |-> "solve_p", T |-> mats[k], how |-> Hows[h]]]])
Chunks(q, size) == [c \in 1..((Len(q) + size - 1) \div size) |-> SubSeq(q, (c - 1) * size + 1, Min2(c * size, Len(q)))]
Exh(m, n, p) == LET ch == Chunks(AllMats(m, n, p), 64) IN [c \in 1..Len(ch) |-> [p |-> p, cmds |-> Cmds(p, ch[c], <<Seed, m, n, p, c>>)]]
Primes == <<2, 3, 5, 7, 23, 101, 32003, 46337>>
RandSession(x) ==
  LET p == Primes[1 + (x % Len(Primes))]
      mats == [k \in 1..16 |-> LET m == 1 + Rnd(<<Seed, x, k, 1>>, Pick(8, 14)) n == Rnd(<<Seed, x, k, 2>>, Pick(10, 16)) IN
                 IF n = 0 THEN Mat(m, 0, LAMBDA i, j : 0)
                 ELSE IF k % 2 = 0 THEN RandRank(<<Seed, x, k>>, m, n, Rnd(<<Seed, x, k, 3>>, Min2(m, n) + 1), p)
                 ELSE RandSparse(<<Seed, x, k>>, m, n, p)]
  IN [p |-> p, cmds |-> Cmds(p, mats, <<Seed, x>>)]
Gen(x) == Exh(1, 1, 2) \o Exh(1, 2, 2) \o Exh(2, 1, 2) \o Exh(2, 2, 2) \o Exh(2, 3, 2) \o Exh(3, 2, 2) \o Exh(3, 3, 2) \o Exh(2, 2, 3) \o Exh(1, 3, 5)
          \o Exh(3, 1, 3) \o Exh(4, 2, 2) \o Exh(2, 4, 2) \o (IF Thorough THEN Exh(2, 3, 3) \o Exh(3, 2, 3) \o Exh(3, 4, 2) \o Exh(4, 3, 2) ELSE <<>>)
          \o [i \in 1..Pick(48, 600) |-> RandSession(i)]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

\* ------------------------------------------------------------------ conformance
Ok(st) == [ok |-> TRUE, why |-> "ok", st |-> st]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, st, e) ==
  IF "died" \in DOMAIN e THEN Bad("the call did not return: " \o e.died)
  ELSE IF e.op = "ctx" THEN Ok(st)
  ELSE LET w == Contract(e.T.m, e.T.r, e.T.c, e.res.B, e.res.U, sess.p, sess.p)
       IN IF ~e.Tsame THEN Bad("the input matrix was modified") ELSE IF w = "ok" THEN Ok(st) ELSE Bad(e.how \o ": " \o w)
InitSt(sess) == 0
Final(sess, st) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
