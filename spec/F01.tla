-------------------------------- MODULE F01 --------------------------------
(***************************************************************************)
(* For a non-degenerate equation all Frobenius routines that sum the same terms   *)
(* return the same residues, and a matrix consists of the single columns; columns   *)
(* with different numbers of terms agree to the accuracy the smaller number gives.     *)
(***************************************************************************)
EXTENDS Frob
Cases == << <<2, 3, 5, 4>>, <<2, 3, 7, 6>>, <<2, 3, 11, 20>>, <<2, 3, 23, 5>>, <<2, 3, 37, 3>>, <<2, 3, 101, 13>>, <<2, 3, 503, 4>>, <<2, 4, 5, 5>>, <<2, 4, 7, 24>>, <<2, 4, 11, 4>>, <<2, 4, 17, 3>>, <<2, 4, 53, 11>>, <<2, 3, 2, 9>>, <<2, 4, 3, 8>>,
            <<2, 5, 7, 7>>, <<2, 5, 3, 9>>, <<3, 4, 5, 5>>, <<3, 4, 11, 3>>, <<3, 4, 23, 15>>, <<1, 3, 7, 3>>, <<1, 5, 11, 4>>, <<1, 4, 3, 40>> >>
Styles == <<"dense", "sparse", "zeros", "naive", "fermat">>
Fam1(x) == LET c == Cases[1 + ((x - 1) % Len(Cases))] p == c[3] st == IF c[1] = 3 /\ p > 20 /\ ~Thorough THEN "sparse" ELSE IF p <= 3 THEN (IF x % 2 = 0 THEN "sparse" ELSE "fermat") ELSE RndEl(<<Seed, x, 41>>, Styles) IN
  MkFam(x + 200, <<c[1], c[2], p, c[4], st, TRUE>>)
JHows == << <<"J", 0>>, <<"JZZ", 0>>, <<"JZZ", 1>>, <<"JZZ", 2>>, <<"JZZp", 0>>, <<"JZZp", 1>>, <<"JZZp", 2>> >>
NDHows == << <<"ND", 0>>, <<"NDZZ", 0>>, <<"NDZZ", 1>>, <<"NDZZ", 2>>, <<"NDZZp", 0>>, <<"NDZZp", 1>>, <<"NDflint", 0>> >>
MaxN(F) == IF F.n = 3 THEN (IF F.p > 20 THEN 1 ELSE 2) ELSE IF F.p > 200 THEN 1 ELSE IF F.p > 20 THEN 2 ELSE 5
NCoord(F) == LET V == HilbertVec(F.n, F.d - 1) IN SumSeq([m \in 1..F.n |-> IF m * F.d - F.n \in 1..Len(V) THEN V[m * F.d - F.n] ELSE 0])
Pick1(F, key, hs) == LET slow == F.p > 60 \/ F.n = 3 IN SelectSeq(hs, LAMBDA h : h[2] = 0 \/ (~slow /\ Rnd(key \o <<h[2], 3>>, 2) = 0))
Calls(F, x, t) == LET c == Rnd(<<Seed, x, t, 42>>, NCoord(F)) N == 1 + Rnd(<<Seed, x, t, 43>>, MaxN(F)) hs == Pick1(F, <<Seed, x, t>>, JHows \o NDHows) IN
  [k \in 1..Len(hs) |-> [op |-> "frob", id |-> IF t % 2 = 0 /\ hs[k][1] \in {"J", "JZZ", "JZZp"} THEN 2 ELSE 1, how |-> hs[k][1], loop |-> hs[k][2], coord |-> c, N |-> N]]
Sess(x) == LET F == Fam1(x) new(i, kind) == [op |-> "new", id |-> i, kind |-> kind, how |-> "map", p |-> F.p, prec |-> F.k, f |-> F.f] IN
  F @@ [timeout |-> 600, cmds |-> <<CtxCmd(F), new(1, "hypnd"), new(2, "hyp")>>
    \o FlattenSeq([t \in 1..(IF F.n = 3 THEN 2 ELSE IF F.d = 5 THEN 3 ELSE 6) |-> Calls(F, x, t)])
    \o (IF F.n = 3 THEN <<>> ELSE LET N == [i \in 1..F.n |-> Rnd(<<Seed, x, i, 44>>, MaxN(F) + 1)] N2 == [i \in 1..F.n |-> N[i] + 1] IN
        << [op |-> "frobmat", id |-> 1, nd |-> 1, N |-> N], [op |-> "frobmat", id |-> 1, nd |-> 0, N |-> N], [op |-> "frobmat", id |-> 2, nd |-> 0, N |-> N], [op |-> "frobmat", id |-> 2, nd |-> 0, N |-> N2] >>)]
Gen(x) == Sharded(Pick(Len(Cases), 6 * Len(Cases)), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Name(e) == "frob_" \o e.how \o " (loop " \o ToString(e.loop) \o ")"
Prec(sess, a, c, N) == LET m == BasisPole(a.basis[c + 1], sess.n, sess.d) v == ValFact(sess.p * (m + N - 1) - 1, sess.p) IN sess.k - Max2(0, v - (sess.n - 1))
Agree(x, y, p, e) == e <= 0 \/ \A i \in 1..Len(x) : BIsZero(BMod(BSub(x[i], y[i]), BPow(p, e)))
KeyOf(c, N) == 1000 * c + N
Poles(sess, a, c) == BasisPole(a.basis[c + 1], sess.n, sess.d)
MCol(M, c) == [i \in 1..Len(M) |-> M[i][c + 1]]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad((IF e.op = "frob" THEN Name(e) ELSE e.op) \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN
    IF a.basis # <<>> /\ a.basis # e.res.basis THEN Bad("the basis depends on the kind of object")
    ELSE IF Len(e.res.basis) # NCoord(sess) THEN Bad("the basis has the wrong size") ELSE Ok([a EXCEPT !.basis = e.res.basis])
  ELSE IF e.op = "frob" THEN
    LET key == KeyOf(e.coord, e.N) IN
    IF key \in DOMAIN a.cols THEN (IF a.cols[key].v = e.res THEN Ok(a) ELSE Bad(Name(e) \o " differs from " \o a.cols[key].who))
    ELSE Ok([a EXCEPT !.cols = (key :> [v |-> e.res, who |-> Name(e)]) @@ @])
  ELSE IF e.op = "frobmat" THEN
    LET len == Len(a.basis) nm == IF e.nd = 1 THEN "frob_matrix_ND" ELSE "frob_matrix_J" n2(c) == e.N[Poles(sess, a, c)]
        bad(c) == LET v == MCol(e.res, c) key == KeyOf(c, n2(c)) IN
          IF n2(c) = 0 THEN \E i \in 1..len : ~BIsZero(v[i]) ELSE key \in DOMAIN a.cols /\ a.cols[key].v # v
        far(c) == LET v == MCol(e.res, c) IN n2(c) > 0 /\ sess.p >= 2 * sess.n + n2(c) + 1 /\
           \E N \in 1..7 : KeyOf(c, N) \in DOMAIN a.cols /\ ~Agree(v, a.cols[KeyOf(c, N)].v, sess.p, Min2(Min2(N, n2(c)), Min2(Prec(sess, a, c, N), Prec(sess, a, c, n2(c)))))
    IN IF Len(e.res) # len THEN Bad(nm \o ": wrong size")
       ELSE IF \E c \in 0..(len - 1) : bad(c) THEN Bad(nm \o ": a column differs from the routine for single columns, or is not zero for no terms")
       ELSE IF \E c \in 0..(len - 1) : far(c) THEN Bad(nm \o ": the columns do not converge p-adically")
       ELSE Ok([a EXCEPT !.cols = [k \in {KeyOf(c, n2(c)) : c \in {x \in 0..(len - 1) : n2(x) > 0}} |-> [v |-> MCol(e.res, k \div 1000), who |-> nm]] @@ @])
  ELSE Ok(a)
InitSt(sess) == [basis |-> <<>>, cols |-> [x \in {-1} |-> [v |-> <<>>, who |-> ""]]]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
