-------------------------------- MODULE D06 --------------------------------
(***************************************************************************)
(* Whatever constructor is used, the object describes the same f: n, d, p,     *)
(* precision, f and f modulo p, tuple tables, Hilbert functions, a basis of the  *)
(* right size in each pole order, dictionaries inverse to the lists.  Objects    *)
(* of the same f are equal and have the same Frobenius matrix; the random          *)
(* constructors give smooth, respectively non-degenerate, equations.               *)
(***************************************************************************)
EXTENDS NDSpace
Kinds(F) == IF F.nd THEN <<"dR", "nd", "hyp", "hypnd">> ELSE <<"dR", "hyp">>
IsNDk(k) == k \in {"nd", "hypnd"}
IsHyp(k) == k \in {"hyp", "hypnd"}
Hows == <<"map", "vec", "mapbar", "vecbar">>
CoefOf(f, u, q) == LET I == SelectSeq(f, LAMBDA t : t[1] = u) IN IF Len(I) = 0 THEN ZeroOf(q) ELSE I[1][2]
VecOf(F) == LET T == Tuples(F.n + 1, F.d) IN [j \in 1..Len(T) |-> CoefOf(F.f, T[j], Qof(F))]
\* f as given by this constructor
GivenF(F, how) == IF how \in {"mapbar", "vecbar"} THEN [i \in 1..Len(F.f) |-> <<F.f[i][1], Red(Red(F.f[i][2], F.p), Qof(F))>>] ELSE F.f
Opts(key, kind) == [verbose |-> Rnd(key \o <<1>>, 2)] @@ (IF IsHyp(kind) \/ Rnd(key \o <<2>>, 3) = 0 THEN <<>> ELSE [save_memory |-> Rnd(key \o <<3>>, 2)])
Cheap(F) == F.n < 3 /\ F.p < 14 /\ F.k < 9 /\ F.d < 5
Make(F, x, kind, i) ==
  LET how == Hows[i] key == <<Seed, x, i, Len(kind)>>
      src == IF how \in {"map", "mapbar"} THEN [f |-> F.f] ELSE [vec |-> VecOf(F)] IN
  << [op |-> "new", id |-> i, kind |-> kind, how |-> how, p |-> F.p, prec |-> F.k, n |-> F.n, d |-> F.d] @@ src @@ Opts(key, kind) @@ (IF i = 1 + Rnd(key, 4) THEN [full |-> 1] ELSE <<>>) >>
  \o (IF IsHyp(kind) /\ Cheap(F) THEN << [op |-> "frobmat", id |-> i, nd |-> 0, N |-> ConstV(F.n, 1)] >> ELSE <<>>)
  \o (IF kind = "hypnd" /\ Cheap(F) THEN << [op |-> "frobmat", id |-> i, nd |-> 1, N |-> ConstV(F.n, 1)] >> ELSE <<>>)
\* what a random object and an object of the same equation are asked
Asks(F, x, t, kind) ==
  [m \in 1..(TopJ(F.n, F.d) + 1) |-> [op |-> "solveJ", level |-> m - 1]]
  \o [k \in 1..F.n |-> [op |-> "final", k |-> k]]
  \o << [op |-> "mtb", us |-> [m \in 1..(IF F.n = 2 THEN 3 ELSE 2) |-> RndMon(<<Seed, x, t, m, 43>>, F.n + 1, (m + 1) * F.d, 1)]] >>
  \o (IF IsNDk(kind) THEN [m \in 1..(F.n + 1) |-> [op |-> "solveND", level |-> m * F.d]] ELSE <<>>)
  \o (IF IsHyp(kind) /\ Cheap(F) THEN << [op |-> "frobmat", nd |-> 0, N |-> ConstV(F.n, 1)] >> ELSE <<>>)
Rands(F, x, kind) == FlattenSeq([t \in 1..Pick(2, 6) |->
   << [op |-> "seed", seed |-> 1 + Rnd(<<Seed, x, t, 41>>, 1000000)],
      [op |-> "new", id |-> 10 + t, kind |-> kind, how |-> "random", p |-> F.p, prec |-> F.k, n |-> F.n, d |-> F.d] @@ Opts(<<Seed, x, t, 42>>, kind),
      [op |-> "twin", id |-> 20 + t, of |-> 10 + t, kind |-> kind, p |-> F.p, prec |-> F.k, n |-> F.n, d |-> F.d] >>
   \o FlattenSeq([j \in 1..Len(Asks(F, x, t, kind)) |-> << Asks(F, x, t, kind)[j] @@ [id |-> 10 + t], Asks(F, x, t, kind)[j] @@ [id |-> 20 + t, twin |-> 1] >>])])
Sess(x, kind) == LET F == FamAt(x) IN
  F @@ [kind |-> kind, timeout |-> 300, cmds |-> <<CtxCmd(F)>> \o FlattenSeq([i \in 1..4 |-> Make(F, x, kind, i)]) \o (IF F.n < 3 THEN Rands(F, x, kind) ELSE <<>>)]
Gen(x) == FlattenSeq([i \in 1..NFam |-> LET K == Kinds([nd |-> FamList[i][6]]) IN [j \in 1..Len(K) |-> Sess(i, K[j])]])
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
NoZero(f) == {f[i] : i \in {j \in 1..Len(f) : ~BIsZero(f[j][2])}}
DictOk(dict, list) == Len(dict) = Len(list) /\ Range1(dict) = {<<list[j], j - 1>> : j \in 1..Len(list)}
HilbertJ(F) == HilbertVec(F.n, F.d - 1)
BasisSizes(F, B) == \A m \in 1..F.n : Cardinality({j \in 1..Len(B) : BasisPole(B[j], F.n, F.d) = m}) = HilbertJ(F)[m * F.d - F.n]
\* sorted by pole order, as the Frobenius routines and the precision vectors need it
BasisOrder(F, B) == \A j \in 1..(Len(B) - 1) : BasisPole(B[j], F.n, F.d) <= BasisPole(B[j + 1], F.n, F.d)
DumpWhy(F, e, D) ==
  LET q == Qof(F) G == [F EXCEPT !.f = D.f] IN
  IF D.p # F.p \/ D.prec # F.k \/ D.n # F.n \/ D.d # F.d THEN "wrong p, precision, n or d"
  ELSE IF "verbose" \in DOMAIN e /\ D.verbose # (e.verbose = 1) THEN "verbose not recorded"
  ELSE IF "save_memory" \in DOMAIN e /\ D.save_memory # (e.save_memory = 1) THEN "save_memory not recorded"
  ELSE IF e.how # "random" /\ NoZero(D.f) # NoZero(GivenF(F, e.how)) THEN "f is not the polynomial given"
  ELSE IF NoZero(D.fbar) # NoZero([i \in 1..Len(D.f) |-> <<D.f[i][1], Red(D.f[i][2], F.p)>>]) THEN "fbar is not f modulo p"
  ELSE IF D.HJ # HilbertJ(F) THEN "Hilbert_J is wrong"
  ELSE IF e.how = "random" /\ ~IsSmoothAlg(D.f, F.n, F.d, F.p) THEN "the random equation is not smooth"
  ELSE IF ~BasisSizes(F, D.basis) \/ Len(D.basis) # Cardinality(Range1(D.basis)) THEN "the basis has the wrong size in some pole order"
  ELSE IF ~BasisOrder(F, D.basis) THEN "the basis is not sorted by pole order"
  ELSE IF ClassTable(D.f, F.n, F.d, F.p, q, D.basis, F.n) = <<>> THEN "the recorded basis is not a basis of the cohomology"
  ELSE IF ~DictOk(D.basisdict, D.basis) THEN "coKernels_J_basis_dict is not inverse to the basis"
  ELSE IF IsNDk(e.kind) /\ D.HND # HilbertVec(F.n, F.d) THEN "Hilbert_ND is wrong"
  ELSE IF IsNDk(e.kind) /\ e.how = "random" /\ ~IsNDAlg(D.f, F.n, F.d, F.p) THEN "the random equation is degenerate"
  ELSE IF IsNDk(e.kind) /\ ~NDBasisOk(G, D.ndbasis) THEN "coKernels_ND_basis is not a basis of the cokernels"
  ELSE IF IsNDk(e.kind) /\ ~DictOk(D.ndbasisdict, D.ndbasis) THEN "coKernels_ND_basis_dict is not inverse to the basis"
  ELSE IF IsHyp(e.kind) /\ D.h # [p |-> F.p, prec |-> F.k, n |-> F.n, d |-> F.d, same |-> TRUE] THEN "the hypersurface's own fields are wrong"
  ELSE IF IsHyp(e.kind) /\ D.fpow # << << <<ConstV(F.n + 1, 0), OneOf(q)>> >> >> THEN "fpow does not start as f^0 = 1"
  ELSE IF "tuple_list" \in DOMAIN D THEN
     (IF Len(D.tuple_list) # (F.n + 1) * F.d + 1 \/ Len(D.tuple_dict) # (F.n + 1) * F.d + 1 THEN "the tuple tables have the wrong number of levels"
      ELSE IF \E i \in 1..Len(D.tuple_list) : D.tuple_list[i] # Tuples(F.n + 1, i - 1) THEN "a tuple list is wrong"
      ELSE IF \E i \in 1..Len(D.tuple_dict) : ~DictOk(D.tuple_dict[i], D.tuple_list[i]) THEN "a tuple table is not inverse to its list" ELSE "ok")
  ELSE "ok"
Common == {"basis", "ndbasis"}
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad((IF e.op = "new" THEN e.kind \o "/" \o e.how ELSE e.op) \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN
    LET w == DumpWhy(sess, e, e.res) IN
    IF w # "ok" THEN Bad(e.kind \o "/" \o e.how \o ": " \o w)
    ELSE IF e.how = "random" THEN Ok(a)
    ELSE LET old == {i \in 1..Len(a.objs) : NoZero(a.objs[i].f) = NoZero(e.res.f)} IN
         IF \E i \in old : \E k \in Common \cap DOMAIN e.res : a.objs[i].dump[k] # e.res[k] THEN Bad(e.kind \o "/" \o e.how \o ": another constructor, another object")
         ELSE Ok([a EXCEPT !.objs = Append(@, [id |-> e.id, f |-> e.res.f, dump |-> e.res, fr |-> <<>>])])
  ELSE IF e.op = "twin" THEN Ok(a)
  ELSE IF (IF "id" \in DOMAIN e THEN e.id > 10 ELSE FALSE) THEN
    IF "twin" \notin DOMAIN e THEN Ok([a EXCEPT !.last = e.res])
    ELSE IF e.res = a.last THEN Ok(a) ELSE Bad("a random object answers " \o e.op \o " otherwise than an object of the same equation")
  ELSE IF e.op = "frobmat" THEN
    LET me == CHOOSE i \in 1..Len(a.objs) : a.objs[i].id = e.id
        old == {i \in 1..Len(a.objs) : i # me /\ NoZero(a.objs[i].f) = NoZero(a.objs[me].f) /\ e.nd \in DOMAIN a.objs[i].fr} IN
    IF \E i \in old : a.objs[i].fr[e.nd] # e.res THEN Bad("another constructor, another Frobenius matrix")
    ELSE Ok([a EXCEPT !.objs[me].fr = [k \in DOMAIN @ \cup {e.nd} |-> IF k = e.nd THEN e.res ELSE @[k]]])
  ELSE Ok(a)
InitSt(sess) == [objs |-> <<>>, last |-> 0]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
