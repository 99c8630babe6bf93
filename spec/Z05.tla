-------------------------------- MODULE Z05 --------------------------------
(***************************************************************************)
(* The zeta polynomial of c f(Mx) is that of f for every invertible M and every nonzero c.  A session is  *)
(* an orbit: the state is the zeta polynomial of its first member.  Matrices: permutations,                *)
(* diagonal ones, elementary ones and products; with and without the search for a non-degenerate            *)
(* model, so that both the general and the non-degenerate method are used on the same orbit.                 *)
(***************************************************************************)
EXTENDS Zeta
\* n, d, p, style, number of equations, number of changes of variables, shears at most
Rows == << <<2, 3, 2, "naive", 10, 10, 6>>, <<2, 3, 5, "naive", 8, 10, 6>>, <<2, 3, 7, "even", 8, 10, 6>>, <<2, 3, 11, "sparse", 8, 10, 6>>, <<2, 3, 13, "klein", 6, 10, 6>>, <<2, 3, 19, "naive", 6, 10, 6>>, <<2, 3, 101, "naive", 4, 8, 6>>, <<2, 3, 499, "sparse", 2, 6, 6>>,
           <<2, 4, 3, "naive", 2, 4, 5>>, <<2, 4, 5, "klein", 3, 8, 6>>, <<2, 4, 7, "naive", 4, 8, 6>>, <<2, 4, 11, "even", 4, 8, 6>>, <<2, 4, 13, "sparse", 4, 8, 6>>, <<2, 4, 17, "naive", 4, 8, 6>>, <<2, 4, 31, "zeros", 3, 8, 6>>, <<2, 4, 101, "sparse", 1, 4, 4>>,
           <<2, 5, 7, "fermat", 1, 2, 3>>, <<2, 5, 11, "klein", 1, 1, 3>>, <<3, 4, 23, "fermat", 1, 2, 0>>, <<3, 4, 11, "fermat", 1, 2, 0>> >>
Rows2 == << <<2, 3, 7, "zeros", 100, 20, 9>>, <<2, 4, 11, "naive", 20, 20, 9>>, <<2, 5, 7, "sparse", 1, 3, 3>>, <<2, 5, 11, "naive", 1, 3, 4>>, <<2, 6, 5, "fermat", 1, 3, 1>>, <<3, 4, 5, "fermat", 1, 3, 0>>, <<3, 4, 7, "fermat", 1, 2, 1>>, <<3, 4, 13, "sparse", 1, 2, 2>>, <<3, 4, 37, "sparse", 1, 2, 2>>, <<3, 4, 101, "sparse", 1, 1, 2>> >>
AllRows == IF Thorough THEN Rows \o Rows2 ELSE Rows
DiagM(key, len, p) == [i \in 1..len |-> [j \in 1..len |-> IF i = j THEN 1 + Rnd(key \o <<i>>, p - 1) ELSE 0]]
ScaleF(f, c, p) == [t \in 1..Len(f) |-> <<f[t][1], MMul(c, f[t][2], p)>>]
Image(key, f, n, d, p, sh) ==
  LET k == IF sh = 0 THEN 0 ELSE Rnd(key \o <<1>>, sh + 1)
      M == MMatMul(RndGL(key \o <<2>>, n + 1, p, k), DiagM(key \o <<3>>, n + 1, p), p)
      c == 1 + Rnd(key \o <<4>>, p - 1)
  IN LiftF(key \o <<5>>, ScaleF(TermsOf(Substitute(f, M, n + 1, d, p), n + 1, d), c, p), p, 1)
Units == FlattenSeq([i \in 1..Len(AllRows) |-> [k \in 1..AllRows[i][5] |-> <<i, k>>]])
Cmd(key, f, p) == [op |-> "zeta", how |-> "map", p |-> p, f |-> f] @@ (IF Rnd(key, 2) = 0 THEN [better |-> 0] ELSE <<>>)
Sess(y) == LET u == Units[Len(Units) + 1 - y] r == AllRows[u[1]] key == <<Seed, u[1], u[2], 75>> f == SmoothF(key, r[1], r[2], r[3], r[4], 1) IN
  [n |-> r[1], d |-> r[2], p |-> r[3], timeout |-> 800, cmds |-> << Cmd(key, f, r[3]) >>
    \o [k \in 1..r[6] |-> Cmd(key \o <<k, 1>>, Image(key \o <<k>>, f, r[1], r[2], r[3], r[7]), r[3])]]
Gen(x) == Sharded(Len(Units), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad("zeta_function did not answer a valid input: " \o e.died)
  ELSE IF a = <<>> THEN Ok(e.res.zeta)
  ELSE IF e.res.zeta = a THEN Ok(a) ELSE Bad("projectively equivalent equations have different zeta polynomials")
InitSt(sess) == <<>>
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
