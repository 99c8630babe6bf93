-------------------------------- MODULE D02 --------------------------------
(***************************************************************************)
(* The non-degenerate method computes the same class function: for every      *)
(* monomial of pole order 1..M monomial_to_basis_ND is the class of           *)
(* DeRham.tla (and equals monomial_to_basis_J far beyond), the columns of      *)
(* get_coKernels_ND_to_basis(u) are the classes c(u + t), the inclusion maps   *)
(* send t to u + t, and matrix_ND / get_solve_ND satisfy their contracts.      *)
(***************************************************************************)
EXTENDS NDSpace
Mon1(F) == SelectSeq(Tuples(F.n + 1, F.d), Pos)
FarUs(F, key, cnt) == [k \in 1..cnt |-> RndPos(key \o <<k>>, F, 6 + Rnd(key \o <<k, 2>>, IF F.n = 3 THEN 3 ELSE 30))]
Sess(x) ==
  LET F == FamAt(x) U == Mon1(F) far == FarUs(F, <<Seed, x, 1>>, Pick(8, 40)) IN
  F @@ [cmds |-> <<CtxCmd(F), NewCmd(F, 1, "nd", "map")>>
     \o [m \in 1..NDPole(F) |-> [op |-> "mtb", id |-> 1, nd |-> 1, us |-> IF F.n = 3 /\ m >= 3 THEN [k \in 1..30 |-> RndPos(<<Seed, x, m, k>>, F, m)] ELSE PosTuples(F.n, F.d, m), near |-> 1]]
     \o << [op |-> "mtb", id |-> 1, nd |-> 0, us |-> far], [op |-> "mtb", id |-> 1, nd |-> 1, us |-> far] >>
     \o [t \in 1..Len(U) |-> [op |-> "cokb", id |-> 1, u |-> U[t]]]
     \o FlattenSeq([t \in 1..Len(U) |-> [j \in 1..Min2(F.n, 2) |-> [op |-> "inclnd", id |-> 1, u |-> U[t], l |-> Rnd(<<Seed, x, t, j, 3>>, F.n)]]])
     \o FlattenSeq([i \in 1..(F.n + 1) |-> << [op |-> "solveND", id |-> 1, level |-> (i - 1) * F.d] >>])
     \o FlattenSeq([t \in 1..Pick(2, 5) |-> LET lv == Rnd(<<Seed, x, t, 9>>, IF F.n = 3 THEN F.d + 3 ELSE (F.n + 1) * F.d + 1) IN << [op |-> "matND", id |-> 1, level |-> lv], [op |-> "solveND", id |-> 1, level |-> lv] >>])]
Gen(x) == [i \in 1..Len(NDFam) |-> Sess(NDFam[i])]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN LET z == NDState(sess, e.res) IN IF z.bad = "" THEN Ok(z) ELSE Bad(z.bad)
  ELSE IF e.op = "mtb" THEN
    IF "near" \in DOMAIN e THEN (IF \A k \in 1..Len(e.us) : e.res[k] = ClassOf(a.tab, e.us[k], sess.d) THEN Ok(a) ELSE Bad("monomial_to_basis_ND: wrong coordinates at pole order " \o ToString(SumSeq(e.us[1]) \div sess.d)))
    ELSE IF e.nd = 0 THEN Ok([a EXCEPT !.obs = e.res])
    ELSE IF e.res = a.obs THEN Ok(a) ELSE Bad("monomial_to_basis_ND differs from monomial_to_basis_J at a large pole order")
  ELSE IF e.op = "cokb" THEN
    IF Len(e.res) = Len(a.basis) /\ \A t \in 1..Len(a.nd) : [j \in 1..Len(e.res) |-> e.res[j][t]] = ClassOf(a.tab, VAdd(e.u, a.nd[t]), sess.d) THEN Ok(a)
    ELSE Bad("get_coKernels_ND_to_basis: a column is not the class of its generator")
  ELSE IF e.op = "inclnd" THEN
    LET B == SelectSeq(a.nd, LAMBDA b : SumSeq(b) = e.l * sess.d) rows == NTup(sess.n + 1, (e.l + 1) * sess.d - sess.n - 1)
        tgt(k) == Idx(VSub(VAdd(B[k], e.u), Ones(sess.n + 1)))
    IN IF Len(e.res) = rows /\ \A h \in 1..rows : e.res[h] = [k \in 1..Len(B) |-> IF tgt(k) = h THEN OneOf(Qof(sess)) ELSE ZeroOf(Qof(sess))] THEN Ok(a) ELSE Bad("get_inclusion_matrix_ND is wrong")
  ELSE IF e.op = "matND" THEN
    LET C == ColsOf(sess.f, sess.n, sess.d, e.level, Qof(sess), "ND") IN
    IF e.res = (IF C = <<>> THEN [i \in 1..NTup(sess.n + 1, e.level) |-> <<>>] ELSE TransposeM(C, NTup(sess.n + 1, e.level))) THEN Ok(a) ELSE Bad("matrix_ND(" \o ToString(e.level) \o ") is wrong")
  ELSE IF e.op = "solveND" THEN
    LET C == ColsOf(sess.f, sess.n, sess.d, e.level, Qof(sess), "ND") rows == NTup(sess.n + 1, e.level)
        w == SolveContract(TransposeM(C, rows), rows, Len(C), e.res.B, e.res.U, sess.p, Qof(sess)) IN
    IF w = "ok" THEN Ok(a) ELSE Bad("get_solve_ND(" \o ToString(e.level) \o "): " \o w)
  ELSE Ok(a)
InitSt(sess) == NDInit
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
