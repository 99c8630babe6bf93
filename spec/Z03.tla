-------------------------------- MODULE Z03 --------------------------------
(***************************************************************************)
(* The options of zeta_function: threads, verbose, model search and requested precision.  A session is one      *)
(* equation; the state is what has been learnt of it: its zeta polynomial and the Frobenius matrix               *)
(* to the best precision seen so far (per column).  Every answer must be consistent with that.                    *)
(***************************************************************************)
EXTENDS Zeta
\* n, d, p, style, number of equations, the absolute precisions with (1) and without (0) enough for zeta
Rows == << <<2, 3, 7, "naive", 4, <<1, 2, 3>>, <<1, 2, 3>> >>, <<2, 3, 11, "naive", 4, <<2, 4, 7>>, <<1, 2, 5, 7>> >>, <<2, 3, 23, "even", 3, <<1, 8, 17>>, <<1, 2, 3, 9>> >>, <<2, 3, 101, "sparse", 3, <<3, 12, 30>>, <<1, 3, 20>> >>, <<2, 3, 1009, "naive", 1, <<4>>, <<1, 2, 6>> >>,
           <<2, 4, 11, "naive", 3, <<2, 5, 7>>, <<1, 2, 3, 4, 6>> >>, <<2, 4, 11, "klein", 3, <<2, 5>>, <<1, 3, 4, 6>> >>, <<2, 4, 13, "even", 2, <<4, 7>>, <<1, 3, 8>> >>, <<2, 4, 31, "sparse", 2, <<4, 11>>, <<1, 2, 5>> >>, <<2, 4, 19, "zeros", 2, <<6>>, <<1, 2, 3>> >>,
           <<2, 3, 5, "naive", 4, <<>>, <<>> >>, <<2, 3, 2, "naive", 4, <<>>, <<>> >>, <<2, 4, 3, "naive", 2, <<>>, <<>> >>, <<2, 4, 5, "klein", 2, <<>>, <<>> >>, <<2, 4, 7, "naive", 3, <<>>, <<>> >>, <<2, 5, 11, "fermat", 1, <<4>>, <<1, 2, 5>> >>,
           <<3, 4, 23, "fermat", 1, <<>>, <<1, 2, 3>> >>, <<3, 4, 11, "fermat", 1, <<>>, <<1, 2>> >>, <<3, 4, 11, "sparse", 1, <<>>, <<3>> >>, <<3, 4, 43, "fermat", 1, <<>>, <<2>> >>,
           <<2, 3, 71, "fermat", 1, <<66>>, <<20, 62>> >>,
           <<2, 3, 5, "klein", 2, <<>>, <<1>> >>, <<2, 4, 7, "even", 2, <<2, 3>>, <<1, 2, 3>> >>, <<2, 4, 5, "sparse", 2, <<>>, <<1>> >> >>
Rows2 == << <<2, 4, 11, "zeros", 8, <<1, 2, 3, 4, 5, 6, 7>>, <<1, 2, 3, 4, 5, 6, 7>> >>, <<2, 3, 13, "naive", 20, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>> >>, <<2, 5, 11, "naive", 1, <<6>>, <<1, 3, 5>> >>, <<2, 5, 13, "klein", 1, <<6>>, <<1, 3, 5>> >>, <<2, 5, 7, "sparse", 1, <<>>, <<>> >>, <<2, 6, 5, "fermat", 1, <<>>, <<>> >>,
            <<3, 4, 11, "fermat", 1, <<4, 5>>, <<1, 2, 3, 4>> >>, <<3, 4, 13, "sparse", 1, <<4>>, <<1, 2, 3, 4>> >>, <<3, 4, 11, "klein", 1, <<>>, <<1, 2, 3>> >>, <<3, 4, 11, "naive", 1, <<>>, <<1, 2>> >>, <<3, 4, 5, "fermat", 1, <<>>, <<>> >>, <<3, 4, 47, "sparse", 1, <<3>>, <<1, 2, 3>> >> >>
AllRows == IF Thorough THEN Rows \o Rows2 ELSE Rows
Opts(v, t, a, i, b) == [verbose |-> v, threads |-> t, abs |-> a, inc |-> i, better |-> b]
Threads == <<1, 2, 3, 5, 8, 13, 24>>
OptSeq(key, r) ==
  LET th(k) == RndEl(key \o <<k>>, Threads) vb(k) == Rnd(key \o <<k, 1>>, 2)
      big == r[1] = 3
      plain == IF big THEN << Opts(1, th(3), 0, 0, 0) >> ELSE << Opts(vb(1), th(1), 0, 0, 1), Opts(1, th(2), 0, 1, 1), Opts(vb(3), th(3), 0, 0, 0), Opts(0, 1, 0, 1, 0) >>
      i1 == [k \in 1..Len(r[6]) |-> Opts(vb(k + 10), th(k + 10), r[6][k], 1, IF Rnd(key \o <<k, 4>>, 4) = 0 THEN 1 ELSE 0)]
      i0 == [k \in 1..Len(r[7]) |-> Opts(vb(k + 20), th(k + 20), r[7][k], 0, IF Rnd(key \o <<k, 5>>, 4) = 0 THEN 1 ELSE 0)]
      all == plain \o i1 \o i0
      \* in an order of its own for every session
      rot == Rnd(key \o <<6>>, Len(all))
  IN << <<>> >> \o [k \in 1..Len(all) |-> all[1 + ((k + rot) % Len(all))]]
Units == FlattenSeq([i \in 1..Len(AllRows) |-> [k \in 1..AllRows[i][5] |-> <<i, k>>]])
Sess(y) == LET u == Units[Len(Units) + 1 - y] r == AllRows[u[1]] key == <<Seed, u[1], u[2], 73>>
               f == LiftF(key \o <<62>>, SmoothF(key, r[1], r[2], r[3], r[4], 1), r[3], 1)
               O == OptSeq(key, r) IN
  [n |-> r[1], d |-> r[2], p |-> r[3], nd |-> IF IsNDAlg([t \in 1..Len(f) |-> <<f[t][1], Red(f[t][2], r[3])>>], r[1], r[2], r[3]) THEN 1 ELSE 0, timeout |-> 800, cmds |->
    << [op |-> "default_args", n |-> r[1], d |-> r[2], p |-> r[3]] >>
    \o [k \in 1..Len(O) |-> [op |-> "zeta", how |-> "map", p |-> r[3], f |-> f] @@ O[k]]]
Gen(x) == Sharded(Len(Units), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
PoleOf(h, c) == CHOOSE m \in 1..Len(h) : SumSeq(SubSeq(h, 1, m - 1)) < c /\ c <= SumSeq(SubSeq(h, 1, m))
Opt(e, x, dflt) == IF x \in DOMAIN e THEN e[x] ELSE dflt
\* the precision of the column of pole order m the options promise; 0: nothing
ColPrec(sess, a, e, m) ==
  LET n == sess.n ab == Opt(e, "abs", 0) inc == Opt(e, "inc", 0) N == a.args.N IN
  IF sess.p < 2 * n + SeqMax(RelPrec(N, n)) THEN 0
  ELSE IF ab > 0 /\ inc = 0 THEN ab
  ELSE IF ab > 0 THEN Max2(ab, Max2(N[m], n - m)) ELSE Max2(N[m], n - m)
\* the basis is that of the equation itself
SameModel(sess, e) == sess.nd = 1 \/ Opt(e, "better", 1) = 0
Merge(sess, a, e, F) == LET deg == DimPrim(sess.n, sess.d) h == Hodge(sess.n, sess.d) IN
  [c \in 1..deg |-> LET pr == ColPrec(sess, a, e, PoleOf(h, c)) IN IF pr > a.cols[c].pr THEN [pr |-> pr, v |-> [i \in 1..deg |-> F[i][c]]] ELSE a.cols[c]]
Check(sess, a, e) ==
  LET n == sess.n d == sess.d p == sess.p deg == DimPrim(n, d) h == Hodge(n, d) z == e.res.zeta F == e.res.frob
      ab == Opt(e, "abs", 0) inc == Opt(e, "inc", 0)
      trunc == ab > 0 /\ inc = 0
      pa == BPow(p, ab) IN
  IF Len(z) # deg + 1 THEN "wrong degree"
  ELSE IF Len(F) # deg \/ \E i \in 1..deg : Len(F[i]) # deg THEN "the Frobenius matrix has the wrong shape"
  ELSE IF ~trunc /\ a.z # <<>> /\ z # a.z THEN "the zeta polynomial depends on the options"
  ELSE IF trunc /\ z # a.z /\ \E k \in 1..(deg + 1) : ~BIsZero(BMod(BSub(z[k], a.z[k]), pa)) THEN "the truncated polynomial is not the zeta polynomial to the requested precision"
  ELSE IF trunc /\ z # a.z /\ (\E k \in 1..(deg + 1) : BLt(z[k], 0) \/ BLe(pa, z[k])) THEN "a coefficient of the truncated polynomial is not a residue"
  ELSE IF trunc /\ z # a.z /\ (LET C == CharPolyFL(F) IN \E k \in 1..(deg + 1) : ~BIsZero(BMod(BSub(z[k], C[k]), pa))) THEN "the truncated polynomial is not the characteristic polynomial"
  ELSE IF SameModel(sess, e) /\ \E c \in 1..deg : LET pr == Min2(ColPrec(sess, a, e, PoleOf(h, c)), a.cols[c].pr) q == BPow(p, pr) IN
            pr > 0 /\ \E i \in 1..deg : ~BIsZero(BMod(BSub(F[i][c], a.cols[c].v[i]), q)) THEN "two Frobenius matrices disagree within their common precision"
  ELSE "ok"
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not answer a valid request: " \o e.died)
  ELSE IF e.op = "default_args" THEN Ok([a EXCEPT !.args = e.res])
  ELSE LET w == Check(sess, a, e) IN IF w # "ok" THEN Bad(w) ELSE
    Ok([a EXCEPT !.z = IF a.z = <<>> THEN e.res.zeta ELSE a.z, !.cols = IF SameModel(sess, e) THEN Merge(sess, a, e, e.res.frob) ELSE a.cols])
InitSt(sess) == [args |-> [N |-> <<>>], z |-> <<>>, cols |-> [c \in 1..DimPrim(sess.n, sess.d) |-> [pr |-> 0, v |-> <<>>]]]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
