-------------------------------- MODULE Z01 --------------------------------
(***************************************************************************)
(* zeta_function returns the true zeta polynomial: for every equation the degree,   *)
(* the functional equation and the point counts over as many extensions as the        *)
(* specification can count; for diagonal equations, also after changes of variables,   *)
(* equality with the Jacobi sum polynomial.                                              *)
(***************************************************************************)
EXTENDS Zeta
\* n, d, p, style, number of equations, coefficients not reduced, limit for the counting
Rows == << <<2, 3, 2, "naive", 40, 0, 100000>>, <<2, 3, 2, "naive", 40, 1, 100000>>, <<2, 3, 5, "naive", 40, 1, 10000>>, <<2, 3, 7, "naive", 40, 1, 10000>>, <<2, 3, 11, "naive", 40, 1, 10000>>, <<2, 3, 13, "sparse", 40, 1, 10000>>, <<2, 3, 17, "naive", 40, 1, 1000>>,
           <<2, 3, 19, "even", 30, 1, 1000>>, <<2, 3, 23, "klein", 30, 0, 1000>>, <<2, 3, 101, "naive", 20, 1, 1000>>, <<2, 3, 499, "zeros", 12, 1, 1000>>, <<2, 3, 2003, "naive", 6, 1, 3000>>, <<2, 3, 10007, "sparse", 2, 1, 20000>>,
           <<2, 4, 3, "naive", 8, 0, 60000>>, <<2, 4, 5, "naive", 10, 1, 60000>>, <<2, 4, 7, "naive", 12, 1, 60000>>, <<2, 4, 11, "zeros", 12, 1, 60000>>, <<2, 4, 13, "sparse", 10, 1, 60000>>, <<2, 4, 17, "naive", 10, 1, 60000>>, <<2, 4, 19, "klein", 8, 0, 60000>>, <<2, 4, 31, "even", 6, 1, 60000>>,
           <<2, 4, 53, "naive", 6, 1, 6000>>, <<2, 4, 101, "naive", 3, 1, 11000>>,
           <<2, 5, 3, "sparse", 1, 1, 60000>>, <<2, 5, 7, "naive", 1, 1, 60000>>, <<2, 5, 7, "klein", 2, 1, 60000>>, <<2, 5, 13, "sparse", 2, 0, 60000>>, <<2, 6, 5, "fermat", 1, 0, 60000>>,
           <<3, 4, 7, "fermat", 1, 1, 100000>>, <<3, 4, 11, "fermat", 1, 1, 20000>>, <<3, 4, 23, "sparse", 1, 0, 20000>> >>
Rows2 == << <<2, 3, 46337, "naive", 2, 1, 50000>>, <<2, 3, 1000003, "sparse", 1, 1, 1000003>>, <<2, 4, 499, "naive", 2, 1, 1000>>, <<2, 5, 11, "naive", 2, 1, 200000>>, <<2, 5, 23, "zeros", 2, 1, 20000>>, <<2, 6, 5, "sparse", 1, 0, 60000>>, <<2, 6, 7, "sparse", 2, 1, 20000>>, <<2, 6, 11, "klein", 1, 1, 20000>>, <<2, 7, 3, "fermat", 1, 0, 60000>>,
            <<3, 4, 3, "fermat", 1, 1, 200000>>, <<3, 4, 5, "sparse", 1, 1, 20000>>, <<3, 4, 7, "sparse", 1, 1, 3000>>, <<3, 4, 7, "klein", 1, 1, 3000>>, <<3, 4, 7, "naive", 2, 1, 200000>>, <<3, 4, 11, "naive", 1, 1, 20000>>, <<3, 4, 13, "even", 1, 0, 40000>>, <<3, 4, 43, "sparse", 2, 1, 4000>>, <<3, 4, 101, "sparse", 1, 1, 12000>> >>
\* n, d, p, number of shears (a disguised diagonal equation), number of equations
Diag == << <<2, 3, 7, 0, 10>>, <<2, 3, 13, 5, 10>>, <<2, 3, 31, 3, 10>>, <<2, 3, 103, 4, 5>>, <<2, 4, 5, 0, 8>>, <<2, 4, 13, 4, 8>>, <<2, 4, 17, 3, 8>>, <<2, 4, 29, 2, 4>>, <<2, 4, 101, 4, 2>>, <<2, 5, 11, 0, 3>>, <<2, 5, 31, 1, 1>>,
           <<3, 4, 5, 0, 1>>, <<3, 4, 13, 0, 1>>, <<3, 4, 17, 1, 1>>, <<3, 4, 29, 0, 1>>, <<3, 4, 53, 1, 1>> >>
Diag2 == << <<2, 4, 5, 6, 12>>, <<2, 5, 11, 3, 3>>, <<2, 5, 41, 4, 2>>, <<3, 4, 13, 4, 1>>, <<3, 4, 37, 2, 1>>, <<3, 4, 5, 2, 1>>, <<3, 4, 101, 1, 1>>, <<2, 7, 29, 0, 1>> >>
AllRows == IF Thorough THEN Rows \o Rows2 ELSE Rows
AllDiag == IF Thorough THEN Diag \o Diag2 ELSE Diag
Mul == Pick(1, 4)
Cmd(f, p) == [op |-> "zeta", how |-> "map", p |-> p, f |-> f]
\* sessions of at most eight equations
Chunk(n) == (n + 7) \div 8
Units(rows, i, cnt) == [k \in 1..Chunk(cnt) |-> <<i, (k - 1) * 8 + 1, Min2(k * 8, cnt)>>]
RowUnits == FlattenSeq([i \in 1..Len(AllRows) |-> Units(AllRows, i, AllRows[i][5] * (IF AllRows[i][1] = 3 THEN 1 ELSE Mul))])
DiagUnits == FlattenSeq([i \in 1..Len(AllDiag) |-> Units(AllDiag, i, AllDiag[i][5] * (IF AllDiag[i][1] = 3 THEN 1 ELSE Mul))])
RowSess(u) == LET r == AllRows[u[1]] IN
  [n |-> r[1], d |-> r[2], p |-> r[3], kind |-> "count", R |-> MaxR(r[1], r[3], r[7], 1), timeout |-> 800,
   cmds |-> [k \in 1..(u[3] - u[2] + 1) |-> LET key == <<Seed, u[1], u[2] + k>> f == SmoothF(key \o <<61>>, r[1], r[2], r[3], r[4], 1) IN Cmd(LiftF(key \o <<62>>, f, r[3], r[6]), r[3])]]
DiagSess(u) == LET r == AllDiag[u[1]] n == r[1] d == r[2] p == r[3] IN
  [n |-> n, d |-> d, p |-> p, kind |-> "diag", R |-> MaxR(n, p, 1000, 1), timeout |-> 800,
   cmds |-> [k \in 1..(u[3] - u[2] + 1) |-> LET key == <<Seed, u[1], u[2] + k>> c == [i \in 1..(n + 1) |-> IF k = 1 /\ u[2] = 1 THEN 1 ELSE 1 + Rnd(key \o <<i, 63>>, p - 1)]
       f == IF r[4] = 0 THEN DiagTerms(n, d, c) ELSE TermsOf(Substitute(DiagTerms(n, d, c), RndGL(key \o <<64>>, n + 1, p, r[4]), n + 1, d, p), n + 1, d)
     IN Cmd(LiftF(key \o <<65>>, f, p, 1), p) @@ [c |-> c]]]
\* the heavy ones first
Sess(x) == LET y == Len(RowUnits) + 1 - x IN IF x <= Len(RowUnits) THEN RowSess(RowUnits[y]) ELSE DiagSess(DiagUnits[Len(RowUnits) + Len(DiagUnits) + 1 - x])
Gen(x) == Sharded(Len(RowUnits) + Len(DiagUnits), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad("zeta_function did not answer a valid input: " \o e.died)
  ELSE LET z == e.res.zeta n == sess.n d == sess.d p == sess.p IN
    IF Len(z) # DimPrim(n, d) + 1 \/ ~IsMonic(z) THEN Bad("not monic of the dimension of the primitive cohomology")
    ELSE IF sess.kind = "diag" /\ z # DiagZeta(n, d, p, e.c) THEN Bad("not the Jacobi sum polynomial of the diagonal equation")
    ELSE IF ~CountsAgree(z, e.f, n, p, sess.R) THEN Bad("the power sums of the roots are not those of the point counts")
    ELSE IF (n - 1) % 2 = 1 /\ ~FunctionalEquation(z, p, n - 1, 1) THEN Bad("the functional equation fails")
    ELSE IF (n - 1) % 2 = 0 /\ ~FunctionalEquation(z, p, n - 1, SignFE(z)) THEN Bad("the functional equation fails")
    ELSE Ok(a)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
