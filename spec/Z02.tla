-------------------------------- MODULE Z02 --------------------------------
(***************************************************************************)
(* The Frobenius matrix returned with the zeta polynomial: residues of the working   *)
(* precision, columns of pole order m divisible by p^(n-m), characteristic polynomial   *)
(* congruent to the zeta polynomial to the precision the Hodge filtration gives; the      *)
(* zeta polynomial: functional equation with one sign (+1 for curves), Weil bounds.          *)
(***************************************************************************)
EXTENDS Zeta
\* n, d, p, style, number of equations, seed offset
Rows == << <<2, 3, 2, "naive", 8>>, <<2, 3, 5, "naive", 8>>, <<2, 3, 7, "sparse", 8>>, <<2, 3, 11, "naive", 8>>, <<2, 3, 17, "naive", 8>>, <<2, 3, 29, "even", 8>>, <<2, 3, 211, "naive", 8>>, <<2, 3, 1009, "zeros", 4>>,
           <<2, 4, 3, "naive", 3>>, <<2, 4, 5, "naive", 6>>, <<2, 4, 7, "naive", 8>>, <<2, 4, 11, "klein", 4>>, <<2, 4, 11, "even", 8>>, <<2, 4, 13, "naive", 8>>, <<2, 4, 23, "sparse", 8>>, <<2, 4, 61, "naive", 4>>, <<2, 4, 251, "sparse", 2>>,
           <<2, 5, 3, "fermat", 1>>, <<2, 5, 7, "naive", 1>>, <<2, 5, 11, "klein", 1>>, <<2, 5, 19, "sparse", 1>>, <<2, 6, 5, "fermat", 1>>, <<2, 6, 7, "fermat", 1>>,
           <<3, 4, 3, "fermat", 1>>, <<3, 4, 5, "fermat", 1>>, <<3, 4, 11, "fermat", 1>>, <<3, 4, 13, "fermat", 1>>, <<3, 4, 31, "sparse", 1>>, <<3, 4, 47, "fermat", 1>> >>
Rows2 == << <<2, 3, 46337, "naive", 2>>, <<2, 4, 5, "dense", 30>>, <<2, 4, 11, "zeros", 30>>, <<2, 5, 11, "naive", 3>>, <<2, 5, 3, "sparse", 1>>, <<2, 6, 5, "sparse", 1>>, <<2, 6, 11, "fermat", 2>>, <<2, 7, 5, "fermat", 1>>, <<2, 8, 5, "fermat", 1>>, <<2, 9, 7, "fermat", 1>>,
            <<3, 4, 7, "sparse", 1>>, <<3, 4, 7, "naive", 1>>, <<3, 4, 17, "naive", 1>>, <<3, 4, 101, "sparse", 2>>, <<3, 4, 23, "klein", 1>> >>
AllRows == IF Thorough THEN Rows \o Rows2 ELSE Rows
Sess(x) == LET r == AllRows[Len(AllRows) + 1 - x] IN
  [n |-> r[1], d |-> r[2], p |-> r[3], timeout |-> 800, cmds |->
    << [op |-> "default_args", n |-> r[1], d |-> r[2], p |-> r[3]] >>
    \o [k \in 1..r[5] |-> LET key == <<Seed, x, k, 71>> IN [op |-> "zeta", how |-> "map", p |-> r[3], f |-> LiftF(key \o <<62>>, SmoothF(key, r[1], r[2], r[3], r[4], 1), r[3], 1)]
         @@ (IF k % 3 = 1 THEN <<>> ELSE [better |-> IF k % 2 = 0 THEN 1 ELSE 0, threads |-> 1 + (k % 3)])]]
Gen(x) == Sharded(Len(AllRows), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
\* pole order of the c-th basis element: the basis is listed by pole order
PoleOf(h, c) == CHOOSE m \in 1..Len(h) : SumSeq(SubSeq(h, 1, m - 1)) < c /\ c <= SumSeq(SubSeq(h, 1, m))
\* power sums of a Weil polynomial
Check(sess, a, z, F) ==
  LET n == sess.n d == sess.d p == sess.p deg == DimPrim(n, d) h == Hodge(n, d) cp == a.cp q == BPow(p, a.precision)
      good == p >= 2 * n + SeqMax(RelPrec(a.N, n))
  IN IF Len(z) # deg + 1 \/ ~IsMonic(z) THEN "the zeta polynomial is not monic of the right degree"
     ELSE IF Len(F) # deg \/ \E i \in 1..deg : Len(F[i]) # deg THEN "the Frobenius matrix has the wrong shape"
     ELSE IF \E i \in 1..deg : \E j \in 1..deg : BLt(F[i][j], 0) \/ BLe(q, F[i][j]) THEN "an entry is not a residue of the working precision"
     ELSE IF good /\ \E j \in 1..deg : LET m == PoleOf(h, j) e == Min2(n - m, a.precision) IN \E i \in 1..deg : ~BIsZero(BMod(F[i][j], BPow(p, e))) THEN "a column is not divisible by its power of p"
     ELSE LET C == CharPolyFL(F) IN
          IF \E k \in 1..(deg - 1) : ~BIsZero(BMod(BSub(C[deg - k + 1], z[deg - k + 1]), BPow(p, Min2(cp[deg - k + 1], a.precision + 60)))) THEN "the characteristic polynomial does not agree with the zeta polynomial"
          ELSE IF good /\ \E k \in 1..deg : ~BIsZero(BMod(BSub(C[deg - k + 1], z[deg - k + 1]), BPow(p, CoefPrec(n, d, [i \in 1..n |-> Max2(a.N[i], n - i)], k)))) THEN "the characteristic polynomial does not agree with the zeta polynomial to the precision of the Hodge filtration"
          ELSE IF ~FunctionalEquation(z, p, n - 1, IF n % 2 = 0 THEN 1 ELSE SignFE(z)) THEN "the functional equation fails"
          ELSE IF ~WeilBound(z, p, n - 1) THEN "the Weil bound fails"
          ELSE "ok"
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not answer a valid input: " \o e.died)
  ELSE IF e.op = "default_args" THEN Ok(e.res)
  ELSE LET w == Check(sess, a, e.res.zeta, e.res.frob) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
