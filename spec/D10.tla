-------------------------------- MODULE D10 --------------------------------
(***************************************************************************)
(* isND(f) is true exactly when f and its restrictions to all coordinate        *)
(* subspaces are smooth; find_change_of_variables returns 0 or an invertible      *)
(* matrix M with f(Mx) non-degenerate.                                              *)
(***************************************************************************)
EXTENDS Smooth
Spaces == << <<1, 3, 2>>, <<1, 3, 5>>, <<1, 4, 3>>, <<1, 5, 2>>, <<2, 3, 2>>, <<1, 2, 3>>, <<1, 2, 5>>, <<2, 2, 3>> >>
NForms(S) == PowInt(S[3], NTup(S[1] + 1, S[2]))
CodeForm(S, c) == LET T == Tuples(S[1] + 1, S[2]) IN [j \in 1..Len(T) |-> <<T[j], (c \div PowInt(S[3], j - 1)) % S[3]>>]
Block == 64
ExhSess(S, b) ==
  [n |-> S[1], d |-> S[2], p |-> S[3], part |-> "all", cmds |-> << [op |-> "ctx", p |-> S[3], prec |-> 1 + (b % 3)] >> \o
     [i \in 1..Min2(Block, NForms(S) - b * Block) |-> [op |-> "isND", f |-> CodeForm(S, b * Block + i - 1), known |-> ""]]]
Exh == FlattenSeq([k \in 1..Len(Spaces) |-> [b \in 1..((NForms(Spaces[k]) + Block - 1) \div Block) |-> ExhSess(Spaces[k], b - 1)]])
NDP == << <<1, 3>>, <<1, 4>>, <<1, 6>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<3, 3>>, <<3, 4>>, <<2, 2>>, <<3, 2>>, <<2, 6>> >>
Primes == <<2, 3, 5, 7, 11, 13, 31, 101, 1009, 46337, 2147483647>>
\* beyond 32 bits, up to the largest a word-sized residue can have
HugePrimes == <<"4294967311", "1099511627791", "1125899906842597", "1152921504606846883">>
PrimesFor(d) == SelectSeq(Primes, LAMBDA p : d % p # 0)
PrimeOf(key, d) == IF Rnd(key \o <<17>>, 6) = 0 THEN RndEl(key, HugePrimes) ELSE RndEl(key, PrimesFor(d))
Build(key, n, d, p, c) ==
  LET len == n + 1 v == 1 + Rnd(key \o <<9>>, len) w == 1 + (v % len) R0 == RndForm(key, len, d, p) IN
  CASE c \in {1, 2} -> [f |-> R0, known |-> ""]
    [] c = 3 -> [f |-> FermatForm(key, len, d, p), known |-> "nd"]
    \* passes through a coordinate point
    [] c = 4 -> [f |-> SelectSeq(R0, LAMBDA t : t[1][v] < d), known |-> "degenerate"]
    \* contains or is tangent to a coordinate line: the restriction to {v, w} is zero or has a double root (d >= 2)
    [] c = 5 -> [f |-> SelectSeq(R0, LAMBDA t : t[1][v] + t[1][w] < d), known |-> "degenerate"]
    [] c = 6 -> [f |-> LET sq == SquareFactor(key \o <<1>>, 2, d, 1, p)
                           onl(t) == t[1][v] + t[1][w] = d
                           tail == SelectSeq(R0, LAMBDA t : ~onl(t))
                       IN tail \o [k \in 1..Len(sq) |-> <<[j \in 1..len |-> IF j = v THEN sq[k][1][1] ELSE IF j = w THEN sq[k][1][2] ELSE 0], sq[k][2]>>], known |-> "degenerate"]
    [] c = 7 -> [f |-> KleinForm(key, len, d, p), known |-> "degenerate"]
    [] c = 8 -> [f |-> Moved(key, FermatForm(key, len, d, p), len, d, p), known |-> ""]
    [] c = 9 -> [f |-> Moved(key, NodeForm(key, len, d, p), len, d, p), known |-> "degenerate"]
    \* a plane section is reducible
    [] c = 10 -> IF n >= 3 THEN [f |-> LET pr == ProductForm(key \o <<1>>, n, d, 1, p) tail == SelectSeq(R0, LAMBDA t : t[1][v] > 0) IN
                                  tail \o [k \in 1..Len(pr) |-> <<[j \in 1..len |-> IF j = v THEN 0 ELSE pr[k][1][IF j < v THEN j ELSE j - 1]], pr[k][2]>>], known |-> "degenerate"]
                 ELSE [f |-> R0, known |-> ""]
    [] c = 11 -> [f |-> SelectSeq(R0, LAMBDA t : Rnd(key \o t[1], 3) = 0 \/ \E i \in 1..len : t[1][i] = d), known |-> ""]
Fill0(f, n, d) == IF Len(f) = 0 THEN << <<[j \in 1..(n + 1) |-> IF j = 1 THEN d ELSE 0], 0>> >> ELSE f
RndSess(x) ==
  LET nd == NDP[1 + (x % Len(NDP))] n == nd[1] d == nd[2] p == PrimeOf(<<Seed, x, 1>>, d) cnt == IF n = 3 /\ d >= 4 THEN 4 ELSE 11
      mk(i) == LET b == Build(<<Seed, x, i, 2>>, n, d, p, IF cnt = 11 THEN i ELSE 1 + ((x + 3 * i) % 11)) IN [op |-> "isND", f |-> Fill0(b.f, n, d), known |-> b.known]
      cov(i) == LET b == Build(<<Seed, x, i, 5>>, n, d, p, 1 + Rnd(<<Seed, x, i, 6>>, 11)) IN
                [op |-> "findcov", f |-> Fill0(b.f, n, d)] @@ (IF Rnd(<<Seed, x, i, 7>>, 2) = 0 THEN <<>> ELSE [N |-> RndEl(<<Seed, x, i, 8>>, <<0, 1, 2, 5, 40>>)])
  IN [n |-> n, d |-> d, p |-> p, part |-> "random", cmds |-> << [op |-> "ctx", p |-> p, prec |-> 1 + Rnd(<<Seed, x, 3>>, 4), seed |-> 1 + Rnd(<<Seed, x, 4>>, 100000)] >> \o [i \in 1..cnt |-> mk(i)]
        \o [i \in 1..(IF cnt = 11 THEN 4 ELSE 1) |-> cov(i)]]
\* find_change_of_variables over all small forms of three spaces
CovSess(S, b) ==
  [n |-> S[1], d |-> S[2], p |-> S[3], part |-> "cov", cmds |-> << [op |-> "ctx", p |-> S[3], prec |-> 1, seed |-> Seed + b] >> \o
     [i \in 1..24 |-> [op |-> "findcov", f |-> CodeForm(S, Rnd(<<Seed, b, i, 9>>, NForms(S))), N |-> RndEl(<<Seed, b, i, 10>>, <<0, 1, 3, 50>>)]]]
Gen(x) == Sharded(Len(Exh), LAMBDA i : Exh[i]) \o Sharded(Pick(110, 1300), RndSess) \o Sharded(Pick(24, 200), LAMBDA i : CovSess(Spaces[1 + (i % 8)], i))
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  LET p == sess.p n == sess.n d == sess.d IN
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "isND" THEN
    LET want == IsNDAlg(e.f, n, d, p) IN
    IF want # NDByStrata(e.f, n, d, p) \/ (e.known # "" /\ want # (e.known = "nd")) THEN Bad("specification unsound")
    ELSE IF e.res = want THEN Ok(a) ELSE Bad("isND is " \o (IF e.res THEN "true for a degenerate form" ELSE "false for a non-degenerate form"))
  ELSE IF e.op = "findcov" THEN
    IF Len(e.res) # n + 1 \/ \E i \in 1..(n + 1) : Len(e.res[i]) # n + 1 THEN Bad("find_change_of_variables: wrong shape")
    ELSE IF \A i \in 1..(n + 1) : \A j \in 1..(n + 1) : BIsZero(e.res[i][j]) THEN
      (IF IsNDAlg(e.f, n, d, p) THEN Bad("find_change_of_variables: 0 for a form that needs no change") ELSE Ok(a))
    ELSE IF MRank(e.res, p) # n + 1 THEN Bad("find_change_of_variables: singular matrix")
    ELSE IF ~IsNDAlg(Fill0(ToForm(Substitute(e.f, e.res, n + 1, d, p), n + 1, d), n, d), n, d, p) THEN Bad("find_change_of_variables: the new equation is degenerate")
    ELSE Ok(a)
  ELSE Ok(a)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
