-------------------------------- MODULE D01 --------------------------------
(***************************************************************************)
(* get_final_reduction_matrix_J(k) has the classes of the forms of pole order  *)
(* k as its columns; get_inclusion_matrix_J(u) sends g to the monomial u + g;   *)
(* matrix_J(l) is the matrix of (H_i) |-> sum H_i d_i f in degree l and          *)
(* get_solve_J(l) is a cokernel basis and right inverse of it.                    *)
(* monomial_to_basis_J: the coordinates returned for all forms of pole       *)
(* order 1..M are the class function of DeRham.tla, computed by the          *)
(* specification, and satisfy every relation; at large pole orders the        *)
(* relations among the returned vectors are checked directly.                 *)
(***************************************************************************)
EXTENDS Fam
MaxPole(F) == IF F.n = 3 THEN 4 ELSE IF F.n = 1 THEN 6 ELSE IF F.d <= 4 THEN Pick(5, 7) ELSE 4
\* relation probes at large pole order: exponents a with |a| = m d - n
Probe(key, F) == LET m == 6 + Rnd(key, IF F.n = 3 THEN 4 ELSE 40) a == RndMon(key \o <<1>>, F.n + 1, m * F.d - F.n, 0)
                     z == IF Rnd(key \o <<3>>, 3) = 0 THEN [a EXCEPT ![1] = 0, ![2] = a[2] + a[1]] ELSE a
                 IN [a |-> z, i |-> 1 + Rnd(key \o <<2>>, F.n + 1)]
ProbeUs(F, P) == LET T == SelectSeq(F.f, LAMBDA t : t[1][P.i] > 0) IN
   [k \in 1..Len(T) |-> Dec(VAdd(VAdd(P.a, Ones(F.n + 1)), T[k][1]), P.i)] \o (IF P.a[P.i] = 0 THEN <<>> ELSE <<Dec(VAdd(P.a, Ones(F.n + 1)), P.i)>>)
InclUs(F) == Tuples(F.n + 1, F.n)
Tables(F, x) == [k \in 1..F.n |-> [op |-> "final", id |-> 1, k |-> 1 + Rnd(<<Seed, x, k, 7>>, F.n)]] \o [k \in 1..F.n |-> [op |-> "final", id |-> 1, k |-> k]]
   \o (LET I == InclUs(F) IN [t \in 1..Min2(Len(I), IF F.n = 3 THEN 2 ELSE 6) |-> [op |-> "incl", id |-> 1, u |-> RndEl(<<Seed, x, t, 8>>, I)]])
   \o FlattenSeq([t \in 1..Pick(3, 8) |-> LET lv == F.d - 1 + Rnd(<<Seed, x, t, 9>>, IF F.n = 3 THEN 5 ELSE F.n * F.d + 2) IN
         << [op |-> "matJ", id |-> 1, level |-> lv], [op |-> "solveJ", id |-> 1, level |-> lv] >>])
Sess(x) == LET F == FamAt(x) IN
  F @@ [cmds |-> <<CtxCmd(F), NewCmd(F, 1, "dR", "map")>> \o Tables(F, x)
     \o [m \in 1..MaxPole(F) |-> [op |-> "mtb", id |-> 1, us |-> PosTuples(F.n, F.d, m), pole |-> m]]
     \o [t \in 1..Pick(6, 20) |-> LET P == Probe(<<Seed, x, t>>, F) IN [op |-> "mtb", id |-> 1, us |-> ProbeUs(F, P), a |-> P.a, i |-> P.i]]]
Gen(x) == [i \in 1..NFam |-> Sess(i)]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
\* the specification's own class function satisfies every relation (checked once per session, when the object is created)
SpecSound(F, tab, basis, M) == AllRelations(F.f, LAMBDA u : ClassOf(tab, u, F.d), F.n, F.d, Qof(F), basis, M)
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN
    LET tab == ClassTable(sess.f, sess.n, sess.d, sess.p, Qof(sess), e.res.basis, MaxPole(sess)) IN
    IF tab = <<>> THEN Bad("the recorded basis is not a basis of the cohomology")
    ELSE IF ~SpecSound(sess, tab, e.res.basis, Min2(MaxPole(sess), sess.n + 2)) THEN Bad("specification unsound")
    ELSE Ok([basis |-> e.res.basis, tab |-> tab])
  ELSE IF e.op = "mtb" THEN
    IF "pole" \in DOMAIN e THEN (IF e.res = a.tab[e.pole] THEN Ok(a) ELSE Bad("monomial_to_basis_J: wrong coordinates at pole order " \o ToString(e.pole)))
    ELSE LET val(u) == e.res[CHOOSE k \in 1..Len(e.us) : e.us[k] = u] IN
         IF RelationAt(sess.f, val, sess.n, Qof(sess), Len(a.basis), e.a, e.i) THEN Ok(a) ELSE Bad("monomial_to_basis_J: a relation fails at a large pole order")
  ELSE IF e.op = "final" THEN
    LET C == a.tab[e.k] M == e.res IN
    IF Len(M) = Len(a.basis) /\ \A g \in 1..Len(C) : [j \in 1..Len(M) |-> M[j][g]] = C[g] THEN Ok(a) ELSE Bad("get_final_reduction_matrix_J(" \o ToString(e.k) \o ") is wrong")
  ELSE IF e.op = "incl" THEN
    LET T == Tuples(sess.n + 1, sess.d * sess.n - sess.n) rows == NTup(sess.n + 1, sess.d * sess.n - sess.n - 1)
        tgt(g) == VSub(VAdd(T[g], e.u), Ones(sess.n + 1)) IN
    IF Len(e.res) = rows /\ \A g \in 1..Len(T) : \A h \in 1..rows : e.res[h][g] = (IF NonNeg(tgt(g)) /\ Idx(tgt(g)) = h THEN OneOf(Qof(sess)) ELSE ZeroOf(Qof(sess))) THEN Ok(a)
    ELSE Bad("get_inclusion_matrix_J is wrong")
  ELSE IF e.op = "matJ" THEN
    IF e.res = TransposeM(ColsOf(sess.f, sess.n, sess.d, e.level, Qof(sess), "J"), NTup(sess.n + 1, e.level)) THEN Ok(a) ELSE Bad("matrix_J(" \o ToString(e.level) \o ") is not the matrix of the Jacobian ideal")
  ELSE IF e.op = "solveJ" THEN
    LET C == ColsOf(sess.f, sess.n, sess.d, e.level, Qof(sess), "J") rows == NTup(sess.n + 1, e.level)
        w == SolveContract(TransposeM(C, rows), rows, Len(C), e.res.B, e.res.U, sess.p, Qof(sess)) IN
    IF w = "ok" THEN Ok(a) ELSE Bad("get_solve_J(" \o ToString(e.level) \o "): " \o w)
  ELSE Ok(a)
InitSt(sess) == [basis |-> <<>>, tab |-> <<>>]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
