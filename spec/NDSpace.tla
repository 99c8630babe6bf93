------------------------------ MODULE NDSpace ------------------------------
(***************************************************************************)
(* The spaces W_u of the non-degenerate method: u positive with sum divisible *)
(* by d, generators t from a list B of exponents of degree 0, d, .., n d; the   *)
(* class of (u, t) is c(u + t).  A step u + v -> u is a matrix R with           *)
(*      c(u + v + t) = sum_s R[s, t] c(u + s).                                 *)
(***************************************************************************)
EXTENDS Fam
NDFam == SelectSeq([i \in 1..NFam |-> i], LAMBDA i : FamList[i][6])
NDPole(F) == IF F.n = 3 THEN 5 ELSE IF F.n = 1 THEN 6 ELSE IF F.d <= 4 THEN 6 ELSE 5
RndPos(key, F, m) == RndMon(key, F.n + 1, m * F.d, 1)
NDVal(F, a, u) == IF SumSeq(u) \div F.d <= NDPole(F) THEN ClassOf(a.tab, u, F.d) ELSE a.obs[u]
NDClass(F, a, u, G) ==
  LET q == Qof(F) S == SelectSeq([g \in 1..Len(a.nd) |-> g], LAMBDA g : ~BIsZero(G[g])) IN
  MLin([k \in 1..Len(S) |-> G[S[k]]], [k \in 1..Len(S) |-> NDVal(F, a, VAdd(u, a.nd[S[k]]))], Len(a.basis), q)
NDStepOk(F, a, u, v, M) == \A t \in 1..Len(a.nd) : NDClass(F, a, u, [h \in 1..Len(M) |-> M[h][t]]) = NDVal(F, a, VAdd(VAdd(u, v), a.nd[t]))
\* B is a basis of the cokernels of the maps of degree 0, d, .., n d: its part of degree i d has the right size and completes the image
NDBasisOk(F, B) ==
  /\ Len(B) = PowInt(F.d, F.n)
  /\ Range1(B) = UNION {{B[j] : j \in {k \in 1..Len(B) : SumSeq(B[k]) = i * F.d}} : i \in 0..F.n} /\ Cardinality(Range1(B)) = Len(B)
  /\ \A i \in 0..F.n :
        LET Bi == SelectSeq(B, LAMBDA b : SumSeq(b) = i * F.d)
            C == ColsOf(F.f, F.n, F.d, i * F.d, F.p, "ND") \o [k \in 1..Len(Bi) |-> UnitVec(NTup(F.n + 1, i * F.d), Idx(Bi[k]), 1, F.p)]
        IN Len(Bi) = HilbertVec(F.n, F.d)[i * F.d + 1] /\ MRank(C, F.p) = NTup(F.n + 1, i * F.d)
\* the abstract state after construction, or [bad]
NDState(F, dump) ==
  LET tab == ClassTable(F.f, F.n, F.d, F.p, Qof(F), dump.basis, NDPole(F)) IN
  [bad |-> IF tab = <<>> THEN "the recorded basis is not a basis of the cohomology" ELSE IF ~NDBasisOk(F, dump.ndbasis) THEN "coKernels_ND_basis is not a basis of the cokernels" ELSE "",
   basis |-> dump.basis, nd |-> dump.ndbasis, tab |-> tab, obs |-> <<>>, reds |-> <<>>, last |-> [u |-> <<>>, v |-> <<>>, k |-> -1, G |-> <<>>, how |-> "", res |-> <<>>]]
NDInit == [bad |-> "", basis |-> <<>>, nd |-> <<>>, tab |-> <<>>, obs |-> <<>>, reds |-> <<>>, last |-> [u |-> <<>>, v |-> <<>>, k |-> -1, G |-> <<>>, how |-> "", res |-> <<>>]]
HasRed(a, u, v) == \E i \in 1..Len(a.reds) : a.reds[i].u = u /\ a.reds[i].v = v
RedOf(a, u, v) == a.reds[CHOOSE i \in 1..Len(a.reds) : a.reds[i].u = u /\ a.reds[i].v = v].m
HasAll(a, u, v, k) == \A j \in 0..(k - 1) : HasRed(a, VAdd(u, VScal(j, v)), v)
\* k single steps with recorded matrices
Compose(a, u, v, k, G, q) == FoldLeft(LAMBDA g, j : MMatVec(RedOf(a, VAdd(u, VScal(k - j, v)), v), g, q), VRed(G, q), [j \in 1..k |-> j])
\* Why a recorded reduction of a vector is wrong ("ok" when it is not)
RvWhy(F, a, e) ==
  LET q == Qof(F) same == a.last.u = e.u /\ a.last.v = e.v /\ a.last.k = e.k /\ a.last.G = e.G
      near == \A w \in {e.u, VAdd(e.u, VScal(e.k, e.v))} : (SumSeq(w) \div F.d) + F.n <= NDPole(F)
  IN IF e.k = 0 /\ e.res # VRed(e.G, q) THEN e.how \o ": no steps must change nothing"
     ELSE IF e.k <= 12 /\ HasAll(a, e.u, e.v, e.k) /\ e.res # Compose(a, e.u, e.v, e.k, e.G, q) THEN e.how \o " differs from composing single steps"
     ELSE IF same /\ a.last.res # e.res THEN e.how \o " differs from " \o a.last.how
     ELSE IF near /\ NDClass(F, a, e.u, e.res) # NDClass(F, a, VAdd(e.u, VScal(e.k, e.v)), e.G) THEN e.how \o " changes the cohomology class"
     ELSE "ok"
SetLast(a, e) == [a EXCEPT !.last = [u |-> e.u, v |-> e.v, k |-> e.k, G |-> e.G, how |-> e.how, res |-> e.res]]
NDMtbSet(a, e) == [a EXCEPT !.obs = [w \in Range1(e.us) |-> e.res[CHOOSE k \in 1..Len(e.us) : e.us[k] = w]]]
RndGV(key, len, q) == [i \in 1..len |-> IF Rnd(key \o <<i, 3>>, 4) = 0 THEN ZeroOf(q) ELSE RndRes(key \o <<i>>, q)]
RndVd(key, F) == RndEl(key, Tuples(F.n + 1, F.d))
=============================================================================
