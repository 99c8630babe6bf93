-------------------------------- MODULE D05 --------------------------------
(***************************************************************************)
(* The FLINT evaluation of k reduction steps (finite differences for moduli    *)
(* of one word and k > n + 1) equals k single steps.  Part 1: the de Rham       *)
(* objects of the family and of very sparse equations.  Part 2: polynomials     *)
(* M(Y) = sum M_i Y^i chosen here, result = M(0) M(1) .. M(k-1) G.              *)
(***************************************************************************)
EXTENDS NDSpace
\* part 1
Flint(F, u, v, k, G, how) == [op |-> "rvND", id |-> 1, u |-> u, v |-> v, k |-> k, G |-> G, how |-> how]
Reds(F, u, v, k) == [j \in 1..k |-> [op |-> "redND", id |-> 1, u |-> VAdd(u, VScal(j - 1, v)), v |-> v, zz |-> 0]]
One(key, F, q, small) ==
  LET u == RndPos(key, F, 1 + Rnd(key \o <<1>>, 2)) v == RndVd(key \o <<2>>, F) G == RndGV(key, PowInt(F.d, F.n), q)
      k == IF small THEN F.n + 2 + Rnd(key \o <<3>>, 4) ELSE RndEl(key \o <<4>>, <<0, 1, 2, F.n, F.n + 1, F.n + 2, F.n + 3, 9, 17, 33, 64>>)
  IN IF small THEN Reds(F, u, v, k) \o << Flint(F, u, v, k, G, "flint") @@ (IF Rnd(key \o <<5>>, 2) = 0 THEN [alias |-> 1] ELSE <<>>) >>
     ELSE << Flint(F, u, v, k, G, "polyZZ"), Flint(F, u, v, k, G, "flint") >>
\* one-word moduli matter most; every sparse shape
SparseQuick == << <<2, 3, 5, 3, "fermat", TRUE>>, <<2, 3, 7, 20, "fermat", TRUE>>, <<2, 3, 31, 12, "sparse", TRUE>>, <<2, 4, 5, 8, "fermat", TRUE>>, <<2, 4, 7, 22, "sparse", TRUE>>, <<2, 4, 13, 4, "fermat", TRUE>>, <<1, 3, 7, 3, "fermat", TRUE>>,
                  <<1, 4, 5, 27, "sparse", TRUE>>, <<2, 5, 7, 4, "fermat", TRUE>>, <<2, 3, 7, 25, "fermat", TRUE>>, <<3, 4, 5, 4, "fermat", TRUE>>,
                  <<1, 3, 7, 1, "fermat", TRUE>>, <<2, 3, 5, 1, "fermat", TRUE>>, <<2, 4, 5, 1, "fermat", TRUE>>, <<1, 3, 5, 1, "sparse", TRUE>>, <<1, 4, 3, 1, "fermat", TRUE>>, <<2, 4, 3, 1, "sparse", TRUE>> >>
SparseMore == << <<2, 3, 2, 62, "fermat", TRUE>>, <<2, 3, 2, 63, "sparse", TRUE>>, <<2, 4, 3, 40, "fermat", TRUE>>, <<2, 4, 11, 18, "fermat", TRUE>>, <<2, 3, 101, 9, "fermat", TRUE>>, <<2, 6, 7, 5, "fermat", TRUE>>, <<1, 5, 3, 9, "fermat", TRUE>>,
                 <<1, 2, 5, 10, "fermat", TRUE>>, <<3, 4, 11, 3, "fermat", TRUE>>, <<3, 4, 7, 22, "sparse", TRUE>>, <<2, 5, 3, 12, "sparse", TRUE>>, <<3, 5, 7, 4, "fermat", TRUE>> >>
Extra == IF Thorough THEN SparseQuick \o SparseMore ELSE SparseQuick
Sess1(F, x) ==
  LET q == Qof(F) big == PowInt(F.d, F.n) > 60 IN
  F @@ [part |-> 1, cmds |-> <<CtxCmd(F), NewCmd(F, 1, "nd", "map")>>
     \o FlattenSeq([t \in 1..(IF big THEN 2 ELSE IF F.k = 1 THEN Pick(40, 200) ELSE Pick(8, 30)) |-> One(<<Seed, x, t, 1>>, F, q, TRUE)])
     \o FlattenSeq([t \in 1..(IF big THEN 3 ELSE Pick(16, 60)) |-> One(<<Seed, x, t, 2>>, F, q, FALSE)])]
\* part 2: the shape of the matrices of an object: block (b, a) of rows of degree b and columns of degree a has degree at most a + 1 - b in Y
Words == << <<2, 5>>, <<3, 9>>, <<7, 11>>, <<2, 31>>, <<2, 32>>, <<5, 27>>, <<2, 61>>, <<2, 62>>, <<2, 63>>, <<3, 40>>, <<2, 64>>, <<3, 41>>, <<11, 18>>, <<46337, 1>>, <<101, 30>> >>
Sess2(x) ==
  LET n == 1 + Rnd(<<Seed, x, 51>>, 3) sz == [j \in 1..(n + 1) |-> IF j = 1 THEN 1 ELSE 1 + Rnd(<<Seed, x, 52, j>>, 3)]
      w == SumSeq(sz) blk(i) == CHOOSE j \in 1..(n + 1) : SumSeq(SubSeq(sz, 1, j - 1)) < i /\ i <= SumSeq(SubSeq(sz, 1, j))
      pk == Words[1 + (x % Len(Words))] q == ModPow(pk[1], pk[2])
      style == Rnd(<<Seed, x, 53>>, 4)
      top == IF style = 0 THEN Rnd(<<Seed, x, 54>>, n + 2) ELSE n + 1
      ent(t, e, i, j) == IF e > blk(j) + 1 - blk(i) \/ e > top THEN ZeroOf(q) ELSE IF style = 1 /\ Rnd(<<Seed, x, t, 55, i, j>>, 3) # 0 THEN ZeroOf(q) ELSE IF style = 3 /\ Rnd(<<Seed, x, t, 55, e, i, j>>, 3) # 0 THEN ZeroOf(q)
                         ELSE IF style = 2 THEN MSub(0, 1 + Rnd(<<Seed, x, t, e, i, j>>, 3), q) ELSE RndRes(<<Seed, x, t, e, i, j>>, q)
      poly(t) == [e \in 1..(n + 2) |-> [i \in 1..w |-> [j \in 1..w |-> ent(t, e - 1, i, j)]]]
  IN [part |-> 2, p |-> pk[1], k |-> pk[2], n |-> n, cmds |-> << [op |-> "ctx", p |-> pk[1], prec |-> pk[2]] >> \o
      [t \in 1..6 |-> [op |-> "flintpoly", n |-> n, k |-> Rnd(<<Seed, x, t, 56>>, Pick(14, 40)), poly |-> poly(t), G |-> RndGV(<<Seed, x, t, 57>>, w, q)]]]
\* many steps with a polynomial of high degree: k^(n+1) does not fit in a machine word (one-step blocks, most entries zero)
LongWords == << <<2, 64>>, <<3, 100>>, <<11, 19>>, <<2, 63>>, <<101, 30>>, <<7, 22>> >>
Sess3(x) ==
  LET n == 4 + Rnd(<<Seed, x, 61>>, 6) w == n + 1
      pk == LongWords[1 + (x % Len(LongWords))] q == ModPow(pk[1], pk[2])
      ent(t, e, i, j) == IF e > j + 1 - i \/ Rnd(<<Seed, x, t, 65, e, i, j>>, 3) = 0 THEN ZeroOf(q) ELSE RndRes(<<Seed, x, t, e, i, j, 66>>, q)
      poly(t) == [e \in 1..(n + 2) |-> [i \in 1..w |-> [j \in 1..w |-> ent(t, e - 1, i, j)]]]
      \* smallest k with k^(n+1) >= 2^64 is at most 7132
      k == IF n = 4 THEN 7200 ELSE IF n = 5 THEN 1700 ELSE IF n = 6 THEN 600 ELSE IF n = 7 THEN 270 ELSE IF n = 8 THEN 150 ELSE 100
  IN [part |-> 3, p |-> pk[1], k |-> pk[2], n |-> n, cmds |-> << [op |-> "ctx", p |-> pk[1], prec |-> pk[2]] >> \o
      [t \in 1..1 |-> [op |-> "flintpoly", n |-> n, k |-> k + Rnd(<<Seed, x, t, 67>>, 9), poly |-> poly(t), G |-> RndGV(<<Seed, x, t, 68>>, w, q)]]]
Gen(x) == [i \in 1..Len(NDFam) |-> Sess1(FamAt(NDFam[i]), i)] \o [i \in 1..Len(Extra) |-> Sess1(MkFam(100 + i, Extra[i]), 100 + i)] \o [i \in 1..Pick(60, 900) |-> Sess2(i)] \o [i \in 1..Pick(18, 120) |-> Sess3(i)]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
\* M(Y) G
EvalStep(poly, Y, G, q) == MLin([i \in 1..Len(poly) |-> MPow(Y, i - 1, q)], [i \in 1..Len(poly) |-> MMatVec(poly[i], G, q)], Len(G), q)
Expected(poly, k, G, q) == FoldLeft(LAMBDA g, j : EvalStep(poly, k - j, g, q), VRed(G, q), [j \in 1..k |-> j])
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN Ok([a EXCEPT !.basis = e.res.basis, !.nd = e.res.ndbasis])
  ELSE IF e.op = "redND" THEN Ok([a EXCEPT !.reds = (IF Len(a.reds) >= 12 THEN Tail(a.reds) ELSE a.reds) \o <<[u |-> e.u, v |-> e.v, m |-> e.res]>>])
  ELSE IF e.op = "rvND" THEN
    LET same == a.last.u = e.u /\ a.last.v = e.v /\ a.last.k = e.k /\ a.last.G = e.G q == Qof(sess) IN
    IF e.k <= 12 /\ HasAll(a, e.u, e.v, e.k) /\ e.res # Compose(a, e.u, e.v, e.k, e.G, q) THEN Bad(e.how \o ": k steps differ from composing single steps")
    ELSE IF e.k = 0 /\ e.res # VRed(e.G, q) THEN Bad(e.how \o ": no steps must change nothing")
    ELSE IF same /\ a.last.res # e.res THEN Bad(e.how \o " differs from " \o a.last.how)
    ELSE Ok(SetLast(a, e))
  ELSE IF e.op = "flintpoly" THEN
    IF e.res = Expected(e.poly, e.k, e.G, ModPow(sess.p, sess.k)) THEN Ok(a) ELSE Bad("reduce_vector_ND_poly_flint is not M(0) .. M(k-1) G")
  ELSE Ok(a)
InitSt(sess) == NDInit
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
