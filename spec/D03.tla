-------------------------------- MODULE D03 --------------------------------
(***************************************************************************)
(* Reduction steps of the general method.  The space at u (sum n mod d) is    *)
(* spanned by the monomials g of degree d n - n, the class of (u, g) being     *)
(* c(u + g) when u + g is positive.  A step u + v -> u (v of degree d, v_i > 0  *)
(* wherever u_i > 0) is a matrix R with                                        *)
(*     c(u + v + g) = sum_h R[h, g] c(u + h)                                   *)
(* and every routine for the same step(s) gives congruent results.             *)
(* c is the class function of DeRham.tla at small pole orders and the          *)
(* coordinates monomial_to_basis_J returns (checked in D01) beyond.            *)
(***************************************************************************)
EXTENDS Huge
MaxPole(F) == F.n + (IF F.n = 3 THEN 1 ELSE 2)
GDeg(F) == F.d * F.n - F.n
Supp(u, v) == \A i \in 1..Len(u) : u[i] > 0 => v[i] > 0
Around(F, u) == SelectSeq([g \in 1..NTup(F.n + 1, GDeg(F)) |-> VAdd(u, Tuples(F.n + 1, GDeg(F))[g])], Pos)
PoleU(F, u) == (SumSeq(u) + GDeg(F)) \div F.d
\* --- generation
MtbCmds(F, us) == LET far == SelectSeq(us, LAMBDA w : PoleU(F, w) > MaxPole(F)) IN
   IF far = <<>> THEN <<>> ELSE << [op |-> "mtb", id |-> 1, us |-> FlattenSeq([i \in 1..Len(far) |-> Around(F, far[i])])] >>
\* the vector to be reduced lives at w; entries at non-positive monomials are zero
RndG(key, F, w, q) == LET T == Tuples(F.n + 1, GDeg(F)) IN [g \in 1..Len(T) |-> IF Pos(VAdd(w, T[g])) THEN (IF Rnd(key \o <<g, 3>>, 4) = 0 THEN ZeroOf(q) ELSE RndRes(key \o <<g>>, q)) ELSE ZeroOf(q)]
Hows1 == <<"one", "oneZZ", "mat", "matZZ", "poly", "polyZZ">>
Group1(F, key, u, v, q) == LET G == RndG(key, F, VAdd(u, v), q) IN
  MtbCmds(F, <<u, VAdd(u, v)>>) \o
  << [op |-> "redJ", id |-> 1, u |-> u, v |-> v, zz |-> 0], [op |-> "redJ", id |-> 1, u |-> u, v |-> v, zz |-> 1] >> \o
  [h \in 1..2 |-> [op |-> "rvJ", id |-> 1, u |-> u, v |-> v, k |-> 1, G |-> G, how |-> Hows1[1 + Rnd(key \o <<h, 8>>, 6)]]]
Group0(F, key, u, v, q) == LET G == RndG(key, F, VAdd(u, v), q) IN
  [h \in 1..6 |-> [op |-> "rvJ", id |-> 1, u |-> u, v |-> v, k |-> 1, G |-> G, how |-> Hows1[h]] @@ (IF h \in {2, 5, 6} /\ Rnd(key \o <<h>>, 2) = 0 THEN [alias |-> 1] ELSE <<>>)]
GroupK(F, key, u, v, k, q) == LET w == VAdd(u, VScal(k, v)) G == RndG(key, F, w, q) IN
  MtbCmds(F, <<u, w>>) \o
  << [op |-> "rvJ", id |-> 1, u |-> u, v |-> v, k |-> k, G |-> G, how |-> "poly"] @@ (IF Rnd(key \o <<5>>, 2) = 0 THEN [alias |-> 1] ELSE <<>>),
     [op |-> "rvJ", id |-> 1, u |-> u, v |-> v, k |-> k, G |-> G, how |-> "polyZZ"] @@ (IF Rnd(key \o <<6>>, 2) = 0 THEN [alias |-> 1] ELSE <<>>) >>
RndV(key, F, u) == LET T == SelectSeq(Tuples(F.n + 1, F.d), LAMBDA v : Supp(u, v)) IN RndEl(key, T)
\* d may be smaller than the number of positive entries of u (surfaces: never): then there is no step from u
HasV(F, u) == F.d >= Cardinality({i \in 1..Len(u) : u[i] > 0})
HugeGroup(F, key, q) ==
  LET far == RndMon(key \o <<5>>, F.n + 1, F.n + F.d, 0)
      b == IF Rnd(key \o <<7>>, 3) = 0 THEN [far EXCEPT ![1] = 0, ![2] = far[1] + far[2]] ELSE far
      v == RndV(key \o <<9>>, F, b)
      zero == {i \in 1..(F.n + 1) : b[i] = 0}
      wild == BCmp(HugeMax(F.d, q), 4) <= 0
      u == IF wild THEN HugeWild(key \o <<1>>, F.n + 1, zero, F.n, F.d) ELSE HugeU(key \o <<1>>, b, q, F.d)
      k == 2 + Rnd(key \o <<3>>, 4)
      \* the entries at non-positive monomials are zero
      G == RndG(key \o <<2>>, F, VAdd(b, v), q)
  IN (IF wild THEN <<>> ELSE MtbCmds(F, <<b, VAdd(b, v), VAdd(b, VScal(k, v))>>)) \o HugeCmds("redJ", "rvJ", Hows1, b, v, u, wild, k, G)
Sess(x) ==
  LET F == FamAt(x) q == Qof(F) dim == NTup(F.n + 1, GDeg(F)) big == dim > 100
      \* all steps from the smallest spaces
      U0 == Tuples(F.n + 1, F.n)
      pairs == FlattenSeq([i \in 1..Len(U0) |-> LET V == SelectSeq(Tuples(F.n + 1, F.d), LAMBDA v : Supp(U0[i], v)) IN [j \in 1..Len(V) |-> <<U0[i], V[j]>>]])
      few == IF Len(pairs) <= Pick(24, 90) /\ ~big THEN pairs ELSE [t \in 1..(IF big THEN 2 ELSE Pick(14, 60)) |-> RndEl(<<Seed, x, t, 4>>, pairs)]
      far(t) == LET u == RndMon(<<Seed, x, t, 5>>, F.n + 1, F.n + F.d * (1 + Rnd(<<Seed, x, t, 6>>, IF big THEN 3 ELSE 12)), 0)
                    \* some with a vanishing entry
                    z == IF Rnd(<<Seed, x, t, 7>>, 3) = 0 THEN [u EXCEPT ![1] = 0, ![2] = u[1] + u[2]] ELSE u
                IN <<z, RndV(<<Seed, x, t, 9>>, F, z)>>
      wide(t) == LET u == RndMon(<<Seed, x, t, 15>>, F.n + 1, F.n + F.d * Rnd(<<Seed, x, t, 16>>, 3), 0) IN <<u, RndV(<<Seed, x, t, 19>>, F, u)>>
      ks == <<0, 1, 2, 3, 7, 20, F.p - 1, F.p>>
      kk(t) == LET k == ks[1 + Rnd(<<Seed, x, t, 21>>, Len(ks))] IN IF k > 40 THEN 40 ELSE k
  IN F @@ [cmds |-> <<CtxCmd(F), NewCmd(F, 1, "dR", "map")>>
     \o FlattenSeq([t \in 1..Len(few) |-> Group1(F, <<Seed, x, t, 1>>, few[t][1], few[t][2], q)])
     \o (IF big THEN <<>> ELSE FlattenSeq([t \in 1..Pick(6, 30) |-> Group1(F, <<Seed, x, t, 2>>, far(t)[1], far(t)[2], q)]))
     \o FlattenSeq([t \in 1..(IF big THEN 1 ELSE Pick(3, 9)) |-> Group0(F, <<Seed, x, t, 10>>, far(t)[1], far(t)[2], q)])
     \o (IF big THEN <<>> ELSE FlattenSeq([t \in 1..Pick(8, 30) |-> GroupK(F, <<Seed, x, t, 3>>, wide(t)[1], wide(t)[2], kk(t), q)]))
     \o FlattenSeq([t \in 1..(IF big THEN 1 ELSE Pick(3, 12)) |-> HugeGroup(F, <<Seed, x, t, 61>>, q)])]
Gen(x) == [i \in 1..NFam |-> Sess(i)]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

\* --- validation
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Val(F, a, u) == IF SumSeq(u) \div F.d <= MaxPole(F) THEN ClassOf(a.tab, u, F.d) ELSE a.obs[u]
\* class of a vector at w
ClassVec(F, a, w, G, len, q) ==
  LET T == Tuples(F.n + 1, GDeg(F)) S == SelectSeq([g \in 1..Len(T) |-> g], LAMBDA g : ~BIsZero(G[g])) IN
  IF \E k \in 1..Len(S) : ~Pos(VAdd(w, T[S[k]])) THEN <<"not positive">>
  ELSE MLin([k \in 1..Len(S) |-> G[S[k]]], [k \in 1..Len(S) |-> Val(F, a, VAdd(w, T[S[k]]))], len, q)
Col(M, g) == [h \in 1..Len(M) |-> M[h][g]]
StepOk(F, a, u, v, M, len, q) ==
  LET T == Tuples(F.n + 1, GDeg(F)) IN
  \A g \in 1..Len(T) : Pos(VAdd(VAdd(u, v), T[g])) => ClassVec(F, a, u, Col(M, g), len, q) = Val(F, a, VAdd(VAdd(u, v), T[g]))
Step(sess, a, e) ==
  LET q == Qof(sess) len == Len(a.basis) IN
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN
    LET tab == ClassTable(sess.f, sess.n, sess.d, sess.p, q, e.res.basis, MaxPole(sess)) IN
    IF tab = <<>> THEN Bad("the recorded basis is not a basis of the cohomology")
    ELSE Ok([a EXCEPT !.basis = e.res.basis, !.tab = tab])
  ELSE IF e.op = "mtb" THEN Ok([a EXCEPT !.obs = [w \in Range1(e.us) |-> e.res[CHOOSE k \in 1..Len(e.us) : e.us[k] = w]]])
  ELSE IF e.op = "redJ" /\ "huge" \in DOMAIN e THEN LET r == HugeRed(a.h, e, IF Len(e.huge) > 0 /\ a.red.u = e.huge /\ a.red.v = e.v THEN a.red.m ELSE <<>>) IN IF r[1] = "ok" THEN Ok([a EXCEPT !.h = r[2]]) ELSE Bad("redJ: " \o r[1])
  ELSE IF e.op = "rvJ" /\ "huge" \in DOMAIN e THEN LET r == HugeRv(a.h, e, a.last, q) IN IF r[1] = "ok" THEN Ok([a EXCEPT !.h = r[2]]) ELSE Bad("rvJ/" \o r[1])
  ELSE IF e.op = "redJ" THEN
    IF e.zz = 0 THEN (IF StepOk(sess, a, e.u, e.v, e.res, len, q) THEN Ok([a EXCEPT !.red = [u |-> e.u, v |-> e.v, m |-> e.res]]) ELSE Bad("get_reduction_matrix_J changes the cohomology class"))
    ELSE IF a.red.u = e.u /\ a.red.v = e.v /\ a.red.m = e.res THEN Ok(a) ELSE Bad("get_reduction_matrix_J_ZZ differs from get_reduction_matrix_J")
  ELSE IF e.op = "rvJ" THEN
    LET prev == a.last
        same == prev.u = e.u /\ prev.v = e.v /\ prev.k = e.k /\ prev.G = e.G
        known == a.red.u = e.u /\ a.red.v = e.v /\ e.k = 1
    IN IF known /\ MMatVec(a.red.m, e.G, q) # e.res THEN Bad("rvJ/" \o e.how \o " differs from the reduction matrix applied to the vector")
       ELSE IF same /\ prev.res # e.res THEN Bad("rvJ/" \o e.how \o " differs from rvJ/" \o prev.how)
       ELSE IF e.k = 0 /\ e.res # VRed(e.G, q) THEN Bad("no steps must change nothing")
       ELSE IF ~known /\ ~same /\ e.k # 1 /\ ClassVec(sess, a, e.u, e.res, len, q) # ClassVec(sess, a, VAdd(e.u, VScal(e.k, e.v)), e.G, len, q) THEN Bad("rvJ/" \o e.how \o " changes the cohomology class")
       ELSE Ok([a EXCEPT !.last = [u |-> e.u, v |-> e.v, k |-> e.k, G |-> e.G, how |-> e.how, res |-> e.res]])
  ELSE Ok(a)
InitSt(sess) == [h |-> HugeInit, basis |-> <<>>, tab |-> <<>>, obs |-> <<>>, red |-> [u |-> <<>>, v |-> <<>>, m |-> <<>>], last |-> [u |-> <<>>, v |-> <<>>, k |-> -1, G |-> <<>>, how |-> "", res |-> <<>>]]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
