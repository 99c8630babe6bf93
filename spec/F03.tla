-------------------------------- MODULE F03 --------------------------------
(***************************************************************************)
(* Frobenius matrices with any number of threads equal the single-threaded ones,   *)
(* on every repetition; with more than one thread the tables are those of the         *)
(* precomputation: the parallel phase adds nothing (ParallelFrobenius.tla).             *)
(***************************************************************************)
EXTENDS Frob
\* n, d, p, k, style, nd; small moduli and moduli of more than one and more than two words
Cases == << <<2, 3, 7, 5, "dense", TRUE>>, <<2, 3, 11, 25, "dense", TRUE>>, <<2, 4, 5, 5, "sparse", TRUE>>, <<2, 4, 7, 26, "dense", TRUE>>, <<2, 4, 11, 4, "klein", FALSE>>, <<2, 4, 13, 20, "even", FALSE>>, <<2, 3, 101, 11, "dense", TRUE>>,
            <<2, 5, 7, 24, "sparse", TRUE>>, <<2, 5, 11, 4, "klein", FALSE>>, <<3, 4, 5, 30, "sparse", TRUE>>, <<2, 3, 5, 60, "zeros", TRUE>>, <<1, 4, 7, 40, "dense", TRUE>>, <<2, 4, 3, 8, "naive", FALSE>>, <<2, 3, 2, 10, "zeros", FALSE>> >>
ThreadsOf(x) == << <<2, 4, 16>>, <<3, 8>>, <<2, 5, 24>> >>[1 + (x % 3)]
NVec(F, key) == [i \in 1..F.n |-> IF F.n = 3 THEN (IF i = 3 THEN 0 ELSE 2 - i) ELSE Rnd(key \o <<i>>, IF F.d = 5 \/ F.p > 60 THEN 2 ELSE 3) + (IF i = F.n THEN 1 ELSE 0)]
Sess(x) ==
  LET F == MkFam(x + 300, Cases[1 + ((x - 1) % Len(Cases))])
      kind(nd) == IF nd = 1 THEN "hypnd" ELSE "hyp"
      new(id, nd) == [op |-> "new", id |-> id, kind |-> kind(nd), how |-> "map", p |-> F.p, prec |-> F.k, f |-> F.f]
      drop(id) == [op |-> "drop", id |-> id]
      th == IF F.n = 3 THEN <<8>> ELSE ThreadsOf(x)
      one(nd, r) == LET N == NVec(F, <<Seed, x, r, nd>>) mx == SeqMax(N) IN
        << new(1, nd), [op |-> "frobmat", id |-> 1, nd |-> nd, N |-> N, threads |-> 1], drop(1) >>
        \o (IF F.n = 3 /\ ~Thorough THEN <<>> ELSE << new(2, nd), [op |-> "compute", id |-> 2, what |-> IF nd = 1 THEN "ND00" ELSE "J"], [op |-> "fpow", id |-> 2, power |-> mx - 1], [op |-> "sizes", id |-> 2], drop(2) >>)
        \o FlattenSeq([k \in 1..Len(th) |-> << new(3, nd), [op |-> "frobmat", id |-> 3, nd |-> nd, N |-> N, threads |-> th[k]], [op |-> "frobmat", id |-> 3, nd |-> nd, N |-> N, threads |-> th[1 + (k % Len(th))]], drop(3) >>])
      \* most columns need more powers of f than the first ones
      skew(nd) == LET N == [i \in 1..F.n |-> IF i = 1 THEN 1 ELSE IF F.d = 5 \/ F.p > 60 THEN 3 ELSE 5] IN
        << new(1, nd), [op |-> "frobmat", id |-> 1, nd |-> nd, N |-> N, threads |-> 1], drop(1) >>
        \o FlattenSeq([k \in 1..3 |-> << new(3, nd), [op |-> "frobmat", id |-> 3, nd |-> nd, N |-> N, threads |-> 8 * k], drop(3) >>])
      sk == IF F.n = 2 /\ F.d >= 4 THEN (IF F.nd THEN skew(1) ELSE <<>>) \o skew(0) ELSE <<>>
  IN F @@ [timeout |-> 600, cmds |-> <<CtxCmd(F)>> \o sk \o FlattenSeq([r \in 1..(IF F.n = 3 THEN 1 ELSE Pick(1, 4)) |-> (IF F.n = 3 /\ ~Thorough THEN <<>> ELSE one(0, r)) \o (IF F.nd THEN one(1, r) ELSE <<>>)])]
Gen(x) == Sharded(Pick(Len(Cases), 4 * Len(Cases)), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o (IF "threads" \in DOMAIN e THEN " with " \o ToString(e.threads) \o " threads" ELSE "") \o " did not return: " \o e.died)
  ELSE IF e.op = "sizes" THEN Ok([a EXCEPT !.sizes = e.res])
  ELSE IF e.op = "frobmat" THEN
    IF e.threads = 1 THEN Ok([a EXCEPT !.m = e.res])
    ELSE IF e.res # a.m THEN Bad("the matrix depends on the number of threads: " \o (IF e.nd = 1 THEN "frob_matrix_ND" ELSE "frob_matrix_J") \o " with " \o ToString(e.threads) \o " threads")
    ELSE IF a.sizes # <<>> /\ e.sizes # a.sizes THEN Bad("the parallel phase changes the shared tables")
    ELSE Ok(a)
  ELSE Ok(a)
InitSt(sess) == [m |-> <<>>, sizes |-> <<>>]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
