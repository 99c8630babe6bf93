-------------------------------- MODULE D04 --------------------------------
(***************************************************************************)
(* Reduction steps of the non-degenerate method (NDSpace.tla): the matrix      *)
(* preserves the class; matrix, vector, polynomial and integer routines agree  *)
(* with composing single steps, for every number of steps.                     *)
(***************************************************************************)
EXTENDS NDSpace, Huge
Hows1 == <<"one", "oneZZ", "mat", "matZZ", "poly", "polyZZ">>
Rv(key, F, u, v, k, G, how) == [op |-> "rvND", id |-> 1, u |-> u, v |-> v, k |-> k, G |-> G, how |-> how] @@ (IF how \in {"poly", "polyZZ"} /\ Rnd(key \o <<91>>, 3) = 0 THEN [alias |-> 1] ELSE <<>>)
Reds(F, u, v, k) == FlattenSeq([j \in 1..k |-> << [op |-> "redND", id |-> 1, u |-> VAdd(u, VScal(j - 1, v)), v |-> v, zz |-> 0], [op |-> "redND", id |-> 1, u |-> VAdd(u, VScal(j - 1, v)), v |-> v, zz |-> 1] >>])
Near(key, F, u, v, q) == LET G == RndGV(key, PowInt(F.d, F.n), q) IN
   << [op |-> "redND", id |-> 1, u |-> u, v |-> v, zz |-> 0], [op |-> "redND", id |-> 1, u |-> u, v |-> v, zz |-> 1] >>
   \o [h \in 1..2 |-> Rv(key \o <<h>>, F, u, v, 1, G, Hows1[1 + Rnd(key \o <<h, 9>>, 6)])]
\* far away: classes through the coordinates monomial_to_basis_ND returns (checked in D02)
FarC(key, F, q) == LET u == RndPos(key, F, 5 + Rnd(key \o <<1>>, 12)) v == RndVd(key \o <<2>>, F) IN [u |-> u, v |-> v]
Comp(key, F, k, q) == LET u == RndPos(key, F, 1 + Rnd(key \o <<1>>, 3)) v == RndVd(key \o <<2>>, F) G == RndGV(key, PowInt(F.d, F.n), q) IN
   Reds(F, u, v, k) \o [h \in 1..2 |-> Rv(key \o <<h>>, F, u, v, k, G, Hows1[4 + h])]
Many(key, F, k, q) == LET u == RndPos(key, F, 1) v == RndVd(key \o <<2>>, F) G == RndGV(key, PowInt(F.d, F.n), q) IN
   [h \in 1..2 |-> Rv(key \o <<h>>, F, u, v, k, G, Hows1[4 + h])]
HugeGroup(F, key, q) ==
  LET b == RndPos(key \o <<5>>, F, 1 + Rnd(key \o <<4>>, 2)) v == RndVd(key \o <<2>>, F)
      wild == BCmp(HugeMax(F.d, q), 4) <= 0
      u == IF wild THEN HugeWild(key \o <<1>>, F.n + 1, {}, 0, F.d) ELSE HugeU(key \o <<1>>, b, q, F.d)
  IN HugeCmds("redND", "rvND", Hows1, b, v, u, wild, 2 + Rnd(key \o <<3>>, 6), RndGV(key \o <<6>>, PowInt(F.d, F.n), q))
Sess(x) ==
  LET F == FamAt(x) q == Qof(F) big == PowInt(F.d, F.n) > 60
      U == SelectSeq(Tuples(F.n + 1, F.d), Pos)
      pairs == FlattenSeq([i \in 1..Len(U) |-> [j \in 1..NTup(F.n + 1, F.d) |-> <<U[i], Tuples(F.n + 1, F.d)[j]>>]])
      few == IF Len(pairs) <= Pick(30, 120) THEN pairs ELSE [t \in 1..(IF big THEN 4 ELSE Pick(20, 80)) |-> RndEl(<<Seed, x, t, 4>>, pairs)]
  IN F @@ [cmds |-> <<CtxCmd(F), NewCmd(F, 1, "nd", "map")>>
     \o FlattenSeq([t \in 1..Len(few) |-> Near(<<Seed, x, t, 1>>, F, few[t][1], few[t][2], q)])
     \* u without all entries positive is not needed: W_u requires it.  u of higher pole order, still within the table
     \o FlattenSeq([t \in 1..Pick(4, 20) |-> LET u == RndPos(<<Seed, x, t, 41>>, F, Max2(1, NDPole(F) - F.n - 1)) IN Near(<<Seed, x, t, 42>>, F, u, RndVd(<<Seed, x, t, 43>>, F), q)])
     \o FlattenSeq([t \in 1..(IF big THEN 0 ELSE Pick(3, 12)) |-> LET c == FarC(<<Seed, x, t, 5>>, F, q) mk(w) == [j \in 1..NTup(F.n + 1, F.d) |-> 0] IN
           << [op |-> "far", u |-> c.u, v |-> c.v] >>])
     \o FlattenSeq([t \in 1..(IF big THEN 1 ELSE Pick(4, 12)) |-> Comp(<<Seed, x, t, 6>>, F, 1 + (t % 4), q)])
     \o FlattenSeq([t \in 1..(IF big THEN 2 ELSE Pick(5, 20)) |-> Many(<<Seed, x, t, 7>>, F, RndEl(<<Seed, x, t, 8>>, <<0, 2, 5, 9, 17, 33>>), q)])
     \o FlattenSeq([t \in 1..(IF big THEN 2 ELSE Pick(4, 20)) |-> HugeGroup(F, <<Seed, x, t, 61>>, q)])]
\* the monomials u + t and u + v + t are only known once the generators are: a far step asks for the classes of all u + t with t of degree 0, d, .., n d
AllT(F) == FlattenSeq([i \in 1..(F.n + 1) |-> Tuples(F.n + 1, (i - 1) * F.d)])
FarCmds(F, c) == << [op |-> "mtb", id |-> 1, nd |-> 0, us |-> SetToSeq({VAdd(c.u, t) : t \in Range1(AllT(F))} \cup {VAdd(VAdd(c.u, c.v), t) : t \in Range1(AllT(F))})],
                    [op |-> "redND", id |-> 1, u |-> c.u, v |-> c.v, zz |-> 0], [op |-> "redND", id |-> 1, u |-> c.u, v |-> c.v, zz |-> 1] >>
Expand(S) == [S EXCEPT !.cmds = FlattenSeq([i \in 1..Len(S.cmds) |-> IF S.cmds[i].op = "far" THEN FarCmds(S, S.cmds[i]) ELSE <<S.cmds[i]>>])]
Gen(x) == [i \in 1..Len(NDFam) |-> Expand(Sess(NDFam[i]))]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN LET z == NDState(sess, e.res) IN IF z.bad = "" THEN Ok(z @@ [h |-> HugeInit]) ELSE Bad(z.bad)
  ELSE IF e.op = "mtb" THEN Ok(NDMtbSet(a, e))
  ELSE IF e.op = "redND" /\ "huge" \in DOMAIN e THEN LET r == HugeRed(a.h, e, IF Len(e.huge) > 0 /\ HasRed(a, e.huge, e.v) THEN RedOf(a, e.huge, e.v) ELSE <<>>) IN IF r[1] = "ok" THEN Ok([a EXCEPT !.h = r[2]]) ELSE Bad("redND: " \o r[1])
  ELSE IF e.op = "rvND" /\ "huge" \in DOMAIN e THEN LET r == HugeRv(a.h, e, a.last, Qof(sess)) IN IF r[1] = "ok" THEN Ok([a EXCEPT !.h = r[2]]) ELSE Bad("rvND/" \o r[1])
  ELSE IF e.op = "redND" THEN
    LET far == (SumSeq(e.u) \div sess.d) + 1 + sess.n > NDPole(sess)
        known == \A t \in 1..Len(a.nd) : VAdd(VAdd(e.u, e.v), a.nd[t]) \in DOMAIN a.obs
        b == [a EXCEPT !.reds = IF e.zz = 0 THEN (IF Len(a.reds) >= 12 THEN Tail(a.reds) ELSE a.reds) \o <<[u |-> e.u, v |-> e.v, m |-> e.res]>> ELSE a.reds] IN
    IF e.zz = 1 THEN (IF HasRed(a, e.u, e.v) /\ RedOf(a, e.u, e.v) = e.res THEN Ok(a) ELSE Bad("get_reduction_matrix_ND_ZZ differs from get_reduction_matrix_ND"))
    ELSE IF (~far \/ known) /\ ~NDStepOk(sess, a, e.u, e.v, e.res) THEN Bad("get_reduction_matrix_ND changes the cohomology class")
    ELSE Ok(b)
  ELSE IF e.op = "rvND" THEN LET w == RvWhy(sess, a, e) IN IF w = "ok" THEN Ok(SetLast(a, e)) ELSE Bad("rvND/" \o w)
  ELSE Ok(a)
InitSt(sess) == NDInit @@ [h |-> HugeInit]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
