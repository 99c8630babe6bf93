-------------------------------- MODULE D07 --------------------------------
(***************************************************************************)
(* Answers do not depend on the history.  Every transition of LazyTables.tla   *)
(* (read from the file BEHAV, each with a shortest history) is replayed on real  *)
(* objects, and pseudo-random histories are run on several objects of the same f *)
(* at once: built to save memory or not, filled completely first, copied, loaded  *)
(* from a file; and on objects of different equations, shapes and moduli in one    *)
(* process, against answers from processes of their own.  Spec: in the whole session an answer is a function of the query.  *)
(***************************************************************************)
EXTENDS NDSpace
Behav == IF Mode = "gen" THEN ndJsonDeserialize(IOEnv.BEHAV) ELSE <<>>
\* concrete commands for an abstract operation
OneV(F, x) == RndEl(<<Seed, x, 61>>, PosTuples(F.n, F.d, 1))
UJ(F, x, m) == RndMon(<<Seed, x, m, 62>>, F.n + 1, m * F.d - F.d * F.n + F.n, 0)
JU(F, x) == [i \in 1..(F.n + 1) |-> Rnd(<<Seed, x, i, 63>>, 5)]
NDU(F, x) == RndPos(<<Seed, x, 64>>, F, 1 + Rnd(<<Seed, x, 65>>, 3))
GJ(F, x) == RndGV(<<Seed, x, 66>>, NTup(F.n + 1, F.d * F.n - F.n), Qof(F))
GN(F, x) == RndGV(<<Seed, x, 67>>, PowInt(F.d, F.n), Qof(F))
High(F, x) == RndMon(<<Seed, x, 68>>, F.n + 1, F.d * (F.n + 2), 1)
Conc(F, x, o, key, id) ==
  LET v == OneV(F, x) u == JU(F, x) w == NDU(F, x) pick(k) == Rnd(key, k) IN
  CASE o[1] = "final" -> IF pick(2) = 0 THEN [op |-> "final", id |-> id, k |-> o[2]] ELSE [op |-> "mtb", id |-> id, us |-> LET T == PosTuples(F.n, F.d, o[2]) IN SubSeq(T, 1, Min2(3, Len(T)))]
    [] o[1] = "incl" -> [op |-> "incl", id |-> id, u |-> RndEl(<<Seed, x, 69>>, Tuples(F.n + 1, F.n))]
    [] o[1] = "red" -> RndEl(key, << [op |-> "redJ", id |-> id, u |-> u, v |-> v, zz |-> 0], [op |-> "rvJ", id |-> id, u |-> u, v |-> v, G |-> GJ(F, x), k |-> 1, how |-> "one"],
                                     [op |-> "rvJ", id |-> id, u |-> u, v |-> v, G |-> GJ(F, x), k |-> 3, how |-> "poly"], [op |-> "compute", id |-> id, what |-> "red", v |-> v] >>)
    [] o[1] = "redZZ" -> RndEl(key, << [op |-> "redJ", id |-> id, u |-> u, v |-> v, zz |-> 1], [op |-> "rvJ", id |-> id, u |-> u, v |-> v, G |-> GJ(F, x), k |-> 1, how |-> "oneZZ"],
                                     [op |-> "rvJ", id |-> id, u |-> u, v |-> v, G |-> GJ(F, x), k |-> 3, how |-> "polyZZ"], [op |-> "compute", id |-> id, what |-> "redZZ", v |-> v] >>)
    [] o[1] = "allJ" -> [op |-> "compute", id |-> id, what |-> "J"]
    [] o[1] = "mtb" -> [op |-> "mtb", id |-> id, us |-> <<High(F, x)>>]
    [] o[1] = "save" -> [op |-> "save", id |-> id, file |-> "h"]
    [] o[1] = "nd" -> RndEl(key, << [op |-> "redND", id |-> id, u |-> w, v |-> v, zz |-> 0], [op |-> "rvND", id |-> id, u |-> w, v |-> v, G |-> GN(F, x), k |-> 1, how |-> "one"],
                                    [op |-> "compute", id |-> id, what |-> "redND", v |-> v] >>)
    [] o[1] = "ndZZ" -> RndEl(key, << [op |-> "redND", id |-> id, u |-> w, v |-> v, zz |-> 1], [op |-> "rvND", id |-> id, u |-> w, v |-> v, G |-> GN(F, x), k |-> 1, how |-> "oneZZ"],
                                    [op |-> "compute", id |-> id, what |-> "redNDZZ", v |-> v] >>)
    [] o[1] = "po" -> RndEl(key, << [op |-> "rvND", id |-> id, u |-> w, v |-> v, G |-> GN(F, x), k |-> 2, how |-> "poly"], [op |-> "compute", id |-> id, what |-> "poly", v |-> v] >>)
    [] o[1] = "poZZ" -> RndEl(key, << [op |-> "rvND", id |-> id, u |-> w, v |-> v, G |-> GN(F, x), k |-> 2, how |-> "polyZZ"], [op |-> "rvND", id |-> id, u |-> w, v |-> v, G |-> GN(F, x), k |-> 9, how |-> "flint"],
                                      [op |-> "compute", id |-> id, what |-> "polyZZ", v |-> v] >>)
    [] o[1] = "inclnd" -> [op |-> "inclnd", id |-> id, u |-> RndEl(<<Seed, x, 70>>, PosTuples(F.n, F.d, 1)), l |-> Min2(1, F.n - 1)]
    [] o[1] = "cokb" -> [op |-> "cokb", id |-> id, u |-> RndEl(<<Seed, x, 70>>, PosTuples(F.n, F.d, 1))]
    [] o[1] = "allND" -> [op |-> "compute", id |-> id, what |-> RndEl(key, <<"ND", "ND00", "ND01", "ND10">>)]
    [] o[1] = "mtbnd" -> [op |-> "mtb", id |-> id, nd |-> 1, us |-> <<High(F, x)>>]
    [] o[1] = "solveJ" -> [op |-> "solveJ", id |-> id, level |-> o[2]]
    [] o[1] = "solveND" -> [op |-> "solveND", id |-> id, level |-> o[2]]
    [] o[1] = "matJ" -> [op |-> "matJ", id |-> id, level |-> o[2]]
    [] o[1] = "fpow" -> [op |-> "fpow", id |-> id, power |-> o[2]]
    [] o[1] = "frob" -> [op |-> "frob", id |-> id, how |-> RndEl(key, IF F.nd /\ o[2] = 1 THEN <<"J", "JZZ", "ND", "NDZZ", "NDZZp", "NDflint">> ELSE <<"J", "JZZ">>), coord |-> Rnd(key \o <<1>>, 2), N |-> 1 + Rnd(key \o <<2>>, IF F.p < 12 /\ F.n * F.d < 9 THEN 6 ELSE 2)]
    [] o[1] = "frobmat" -> [op |-> "frobmat", id |-> id, nd |-> IF o[2] = 1 THEN Rnd(key, 2) ELSE 0, N |-> ConstV(F.n, 1 + Rnd(key \o <<1>>, 2))]
    [] OTHER -> [op |-> "dump", id |-> id]
\* part 1: the transitions of the model
IsProbe(c) == c.op \notin {"compute", "save"}
Small == << <<2, 3, 7, 3, "dense", TRUE>>, <<1, 4, 7, 3, "zeros", TRUE>>, <<2, 3, 5, 9, "sparse", TRUE>> >>
Chunk == 12
Sess1(gi, c) ==
  \* gi: index of the group in Behav, c: number of the chunk
  LET B == Behav[gi] x == 200 + gi F == MkFam(x, Small[B.fam]) lo == (c - 1) * Chunk kind == IF B.group = "ND" THEN "nd" ELSE RndEl(<<gi, c>>, <<"dR", "nd">>)
      idx == SelectSeq([i \in 1..Chunk |-> lo + i], LAMBDA i : i <= Len(B.hists))
      mk(id) == NewCmd(F, id, kind, "map") @@ [save_memory |-> IF B.sm THEN 1 ELSE 0]
      one(i) == LET h == B.hists[i] IN
        <<mk(i)>> \o [j \in 1..Len(h) |-> Conc(F, x, h[j], <<gi, i, j>>, i)]
      \* every kind of query once on fresh objects, for comparison
      last(i) == LET h == B.hists[i] IN Conc(F, x, h[Len(h)], <<gi, i, Len(h)>>, 10000 + i)
      base == FlattenSeq([k \in 1..Len(idx) |-> IF IsProbe(last(idx[k])) THEN <<mk(10000 + idx[k]), last(idx[k])>> ELSE <<>>])
  IN F @@ [part |-> 1, kind |-> kind, cmds |-> <<CtxCmd(F)>> \o FlattenSeq([k \in 1..Len(idx) |-> one(idx[k])]) \o base]
\* part 2: histories on several objects
HOps(F, kind) == << <<"incl", 0>>, <<"red", 0>>, <<"redZZ", 0>>, <<"mtb", 0>>, <<"allJ", 0>>, <<"save", 0>>, <<"solveJ", F.d>>, <<"solveJ", TopJ(F.n, F.d)>>, <<"solveJ", F.d + 1>>, <<"matJ", F.d>> >>
   \o [k \in 1..F.n |-> <<"final", k>>]
   \o (IF kind \in {"nd", "hypnd"} THEN << <<"nd", 0>>, <<"ndZZ", 0>>, <<"po", 0>>, <<"poZZ", 0>>, <<"inclnd", 0>>, <<"cokb", 0>>, <<"allND", 0>>, <<"mtbnd", 0>>, <<"solveND", F.d>> >> ELSE <<>>)
   \o (IF kind \in {"hyp", "hypnd"} THEN [k \in 1..(IF F.n = 3 THEN 3 ELSE 8) |-> <<"fpow", k>>] \o (IF F.n < 3 /\ F.p < 24 /\ F.d < 5 THEN << <<"frob", IF kind = "hypnd" THEN 1 ELSE 0>>, <<"frob", IF kind = "hypnd" THEN 1 ELSE 0>>, <<"frobmat", IF kind = "hypnd" THEN 1 ELSE 0>> >> ELSE <<>>) ELSE <<>>)
HKinds(F) == IF F.nd THEN <<"dR", "nd", "hyp", "hypnd">> ELSE <<"dR", "hyp">>
Sess2(x, kind, t) ==
  LET F == FamAt(x) O == HOps(F, kind) big == F.n = 3 \/ F.d > 4 key(i) == <<Seed, x, t, i, Len(kind)>>
      P == IF big THEN SelectSeq(O, LAMBDA o : o[1] \notin {"allJ", "allND", "save"}) ELSE O
      hyp == kind \in {"hyp", "hypnd"}
      mk(id, sm) == NewCmd(F, id, kind, "map") @@ (IF hyp THEN <<>> ELSE [save_memory |-> sm])
      \* the queries come from few variants (x is fixed), so that the same query is asked again and again on different objects
      q(i, id) == Conc(F, 1000 * x + Rnd(key(i) \o <<1>>, 2), RndEl(key(i) \o <<2>>, P), <<Rnd(key(i) \o <<3>>, 6)>>, id)
      steps == IF big THEN 14 ELSE Pick(40, 120)
      mid == steps \div 3
  IN F @@ [part |-> 2, kind |-> kind, cmds |-> <<CtxCmd(F), mk(1, 1), mk(2, 0)>>
       \o [i \in 1..mid |-> q(i, 1 + Rnd(key(i) \o <<4>>, 2))]
       \o (IF hyp THEN <<>> ELSE << [op |-> "copy", id |-> 1, to |-> 3] >>)
       \o << [op |-> "save", id |-> 1, file |-> "g"], NewCmd(F, 4, kind, "file") @@ [file |-> "g"], mk(5, 1) >>
       \o [i \in 1..(steps - mid) |-> q(mid + i, LET k == 1 + Rnd(key(mid + i) \o <<4>>, 5) IN IF hyp /\ k = 3 THEN 1 ELSE k)]]
\* part 3: what a query handed out stays as it is while everything else is filled in
Walk(F, x, kind) ==
  LET U == Tuples(F.n + 1, F.n) V == PosTuples(F.n, F.d, 1) nd == kind \in {"nd", "hypnd"} top == (F.n + 1) * F.d + 1 lvs(k) == IF F.d > 4 THEN Min2(k, 11) ELSE k IN
  [i \in 1..Len(U) |-> [op |-> "incl", id |-> 1, u |-> U[i]]]
  \o [i \in 1..Min2(Len(V), 24) |-> [op |-> "compute", id |-> 1, what |-> "red", v |-> V[i]]]
  \o [i \in 1..lvs(TopJ(F.n, F.d) + 3) |-> [op |-> "solveJ", id |-> 1, level |-> i - 1]]
  \o (IF nd THEN [i \in 1..Len(V) |-> [op |-> "cokb", id |-> 1, u |-> V[i]]]
       \o FlattenSeq([i \in 1..Len(V) |-> [j \in 1..F.n |-> [op |-> "inclnd", id |-> 1, u |-> V[i], l |-> j - 1]]])
       \o [i \in 1..lvs(top) |-> [op |-> "solveND", id |-> 1, level |-> i - 1]] ELSE <<>>)
Sess3(x, kind) ==
  LET F == FamAt(x) nd == kind \in {"nd", "hypnd"} W == Walk(F, x, kind) key(i) == <<Seed, x, i, 81>>
      H == SelectSeq(Walk(F, x, kind), LAMBDA c : c.op # "compute")
      idx == [i \in 1..Min2(12, Len(H)) |-> Rnd(key(i), Len(H)) + 1]
      holds == [i \in 1..Len(idx) |-> H[idx[i]] @@ [hold |-> ToString(i)]] \o [k \in 1..F.n |-> [op |-> "final", id |-> 1, k |-> k, hold |-> "f" \o ToString(k)]]
      typ(c) == IF c.op \in {"solveJ", "solveND"} THEN "solve" ELSE "mat"
      again == [i \in 1..Len(holds) |-> [op |-> "held", name |-> holds[i].hold, type |-> typ(holds[i])]]
      all == << [op |-> "compute", id |-> 1, what |-> "J"] >> \o (IF nd THEN << [op |-> "compute", id |-> 1, what |-> "ND"] >> ELSE <<>>)
      rot == Rnd(key(99), Len(W))
  IN F @@ [part |-> 3, kind |-> kind, cmds |-> <<CtxCmd(F), NewCmd(F, 1, kind, "map") @@ (IF kind \in {"hyp", "hypnd"} THEN <<>> ELSE [save_memory |-> Rnd(key(98), 2)])>>
       \o holds \o [i \in 1..Len(W) |-> W[1 + ((i + rot) % Len(W))]] \o again \o (IF F.d > 4 THEN <<>> ELSE all \o again) \o << [op |-> "mtb", id |-> 1, us |-> <<High(F, x)>>] >> \o again
       \o [i \in 1..Len(idx) |-> H[idx[i]]]]
Sess3s == LET I == SelectSeq([i \in 1..NFam |-> i], LAMBDA i : FamList[i][1] < 3) IN
   [j \in 1..Len(I) |-> Sess3(I[j], IF FamList[I[j]][6] THEN RndEl(<<Seed, j, 82>>, <<"nd", "hypnd", "nd", "hyp">>) ELSE "dR")]
\* part 4: objects of different equations, shapes and moduli in one process; each query is also asked in a process of its own
Shapes == << <<2, 3, 7, 3, "dense", TRUE>>, <<1, 4, 7, 3, "zeros", TRUE>>, <<2, 4, 5, 2, "sparse", TRUE>>, <<1, 3, 5, 4, "dense", TRUE>>, <<2, 3, 7, 2, "zeros", TRUE>>, <<3, 4, 5, 2, "fermat", FALSE>>,
            <<2, 3, 5, 9, "sparse", TRUE>>, <<2, 4, 7, 3, "fermat", FALSE>>, <<1, 5, 7, 2, "sparse", TRUE>>, <<2, 3, 11, 3, "naive", TRUE>> >>
Kind4(F, j) == IF F.nd THEN <<"hypnd", "nd">>[1 + (j % 2)] ELSE <<"dR", "hyp">>[1 + (j % 2)]
Tag(c, j) == [fam |-> j] @@ c
Sess4(t) ==
  LET m == 5 x == 900 + 20 * t
      Fs == TLCEval([j \in 1..m |-> MkFam(x + j, Shapes[1 + ((j + 4 * t) % Len(Shapes))])])
      ops(j) == SelectSeq(HOps(Fs[j], Kind4(Fs[j], j)), LAMBDA o : o[1] # "save")
      q(j, i, id) == LET F == Fs[j] O == ops(j) IN
         Tag(IF i = 1 /\ F.n = 2 /\ F.d = 3 THEN [op |-> "zeta", how |-> "map", p |-> F.p, f |-> F.f] ELSE Conc(F, x + j, RndEl(<<Seed, t, j, i, 91>>, O), <<Seed, t, j, i>>, id), j)
      probes(j) == SelectSeq([i \in 1..Pick(10, 24) |-> i], LAMBDA i : q(j, i, j).op # "compute")
      new(j, id) == NewCmd(Fs[j], id, Kind4(Fs[j], j), "map")
      P == TLCEval([j \in 1..m |-> LET I == probes(j) IN [a \in 1..Len(I) |-> q(j, I[a], j)]])
      alone == FlattenSeq([j \in 1..m |-> [a \in 1..Len(P[j]) |-> [op |-> "apart", cmds |-> <<CtxCmd(Fs[j]), new(j, j), P[j][a]>>]]])
      one(k) == LET j == 1 + Rnd(<<Seed, t, k, 92>>, m) fresh == Rnd(<<Seed, t, k, 93>>, 3) = 0 c == RndEl(<<Seed, t, k, 94>>, P[j]) IN
         <<CtxCmd(Fs[j])>> \o (IF fresh THEN <<new(j, 100 + k), IF "id" \in DOMAIN c THEN [c EXCEPT !.id = 100 + k] ELSE c>> ELSE <<c>>)
  IN Fs[1] @@ [part |-> 4, kind |-> "several", cmds |-> alone \o FlattenSeq([j \in 1..m |-> <<CtxCmd(Fs[j]), new(j, j)>>]) \o FlattenSeq([k \in 1..Pick(60, 240) |-> one(k)])]
Gen(x) == [t \in 1..Pick(4, 12) |-> Sess4(t)] \o Sess3s \o FlattenSeq([g \in 1..Len(Behav) |-> [c \in 1..((Len(Behav[g].hists) + Chunk - 1) \div Chunk) |-> Sess1(g, c)]])
   \o FlattenSeq([i \in 1..NFam |-> FlattenSeq([t \in 1..Pick(1, 4) |-> LET Ks == HKinds([nd |-> FamList[i][6]]) IN [j \in 1..Len(Ks) |-> Sess2(i, Ks[j], t)]])])
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
NotKey == {"id", "res", "sizes", "hold", "to"}
Query(e) == [k \in DOMAIN e \ NotKey |-> e[k]]
IsQuery(e) == e.op \in {"mtb", "final", "incl", "solveJ", "matJ", "redJ", "rvJ", "solveND", "matND", "redND", "rvND", "inclnd", "cokb", "fpow", "frob", "frobmat", "zeta"}
NoZero(f) == {f[i] : i \in {j \in 1..Len(f) : ~BIsZero(f[j][2])}}
Answer(e) == IF e.op = "fpow" THEN [i \in 1..(e.power + 1) |-> NoZero(e.res[i])] ELSE e.res
\* a query that was asked in a process of its own
Told(a, e) == FoldLeft(LAMBDA b, r : IF IsQuery(r) THEN Append(b, <<r.op, Query(r), Answer(r)>>) ELSE b, a, e.res)
Step(sess, a, e) ==
  IF e.op = "apart" /\ "died" \notin DOMAIN e THEN IF Len(e.res) = e.n THEN Ok(Told(a, e)) ELSE Bad("a query on a fresh object in a process of its own did not return")
  ELSE IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF IsQuery(e) THEN
    LET k == Query(e) at == {i \in 1..Len(a) : a[i][1] = e.op /\ a[i][2] = k}
        b == IF "hold" \in DOMAIN e THEN Append(a, <<"held", e.hold, Answer(e)>>) ELSE a IN
    IF at = {} THEN Ok(Append(b, <<e.op, k, Answer(e)>>))
    ELSE IF a[CHOOSE i \in at : TRUE][3] = Answer(e) THEN Ok(b) ELSE Bad(e.op \o ": another history, another answer")
  ELSE IF e.op = "held" THEN
    IF \E i \in 1..Len(a) : a[i][1] = "held" /\ a[i][2] = e.name /\ a[i][3] = e.res THEN Ok(a) ELSE Bad("what an earlier query returned has changed")
  ELSE Ok(a)
InitSt(sess) == <<>>
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
