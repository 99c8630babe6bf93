-------------------------------- MODULE D09 --------------------------------
(***************************************************************************)
(* isSmooth(f) is true exactly when f is smooth: on all forms of small spaces   *)
(* (where SmoothCriterion.tla has compared the criterion with singular points),   *)
(* on constructed smooth and singular forms, on pseudo-random ones.                 *)
(***************************************************************************)
EXTENDS Smooth
Spaces == << <<1, 3, 2>>, <<1, 3, 5>>, <<1, 4, 3>>, <<1, 5, 2>>, <<2, 3, 2>>, <<1, 2, 3>>, <<1, 2, 5>>, <<2, 2, 3>> >>
NForms(S) == PowInt(S[3], NTup(S[1] + 1, S[2]))
CodeForm(S, c) == LET T == Tuples(S[1] + 1, S[2]) IN [j \in 1..Len(T) |-> <<T[j], (c \div PowInt(S[3], j - 1)) % S[3]>>]
Block == 64
ExhSess(S, b) ==
  [n |-> S[1], d |-> S[2], p |-> S[3], part |-> "all", cmds |-> << [op |-> "ctx", p |-> S[3], prec |-> 1 + (b % 3)] >> \o
     [i \in 1..Min2(Block, NForms(S) - b * Block) |-> [op |-> "isSmooth", f |-> CodeForm(S, b * Block + i - 1), known |-> ""]]]
Exh == FlattenSeq([k \in 1..Len(Spaces) |-> [b \in 1..((NForms(Spaces[k]) + Block - 1) \div Block) |-> ExhSess(Spaces[k], b - 1)]])
NDP == << <<1, 3>>, <<1, 4>>, <<1, 6>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<3, 3>>, <<3, 4>>, <<2, 2>>, <<3, 2>>, <<2, 6>>, <<3, 5>>, <<1, 9>> >>
Primes == <<2, 3, 5, 7, 11, 13, 31, 101, 1009, 46337, 2147483647>>
\* beyond 32 bits, up to the largest a word-sized residue can have
HugePrimes == <<"4294967311", "1099511627791", "1125899906842597", "1152921504606846883">>
PrimesFor(d) == SelectSeq(Primes, LAMBDA p : d % p # 0)
PrimeOf(key, d) == IF Rnd(key \o <<17>>, 6) = 0 THEN RndEl(key, HugePrimes) ELSE RndEl(key, PrimesFor(d))
\* number of a construction -> form and what is known
Build(key, n, d, p, c) ==
  LET len == n + 1 IN
  CASE c = 1 -> [f |-> RndForm(key, len, d, p), known |-> ""]
    [] c = 2 -> [f |-> FermatForm(key, len, d, p), known |-> "smooth"]
    [] c = 3 -> [f |-> Moved(key, FermatForm(key, len, d, p), len, d, p), known |-> "smooth"]
    [] c = 4 -> [f |-> Moved(key, NodeForm(key, len, d, p), len, d, p), known |-> "singular"]
    [] c = 5 -> [f |-> NodeForm(key, len, d, p), known |-> "singular"]
    [] c = 6 -> IF n >= 2 THEN [f |-> ProductForm(key, len, d, 1 + Rnd(key \o <<9>>, d - 1), p), known |-> "singular"] ELSE IF d >= 4 THEN [f |-> SquareFactor(key, len, d, 2, p), known |-> "singular"] ELSE [f |-> RndForm(key, len, d, p), known |-> ""]
    [] c = 7 -> IF n >= 2 /\ d >= 2 THEN [f |-> SquareIdeal(key, len, d, IF d >= 4 THEN 1 + Rnd(key \o <<9>>, 2) ELSE 1, p), known |-> "singular"] ELSE [f |-> SquareFactor(key, len, d, 1, p), known |-> "singular"]
    [] c = 8 -> [f |-> KleinForm(key, len, d, p), known |-> ""]
    \* a variable is missing: a cone
    [] c = 9 -> [f |-> SelectSeq(RndForm(key, len, d, p), LAMBDA t : t[1][1 + Rnd(key \o <<9>>, len)] = 0), known |-> IF d >= 2 THEN "singular" ELSE ""]
    \* a sparse random form
    [] c = 10 -> [f |-> SelectSeq(RndForm(key, len, d, p), LAMBDA t : Rnd(key \o t[1], 3) = 0 \/ t[1][1] = d), known |-> ""]
    \* smooth except modulo p: coefficients vanish
    [] c = 11 -> [f |-> [i \in 1..len |-> <<FermatForm(key, len, d, p)[i][1], IF i = 1 + Rnd(key \o <<9>>, len) THEN 0 ELSE 1>>], known |-> "singular"]
RndSess(x) ==
  LET nd == NDP[1 + (x % Len(NDP))] n == nd[1] d == nd[2] p == PrimeOf(<<Seed, x, 1>>, d) cnt == IF n = 3 /\ d >= 4 THEN 5 ELSE 11
      mk(i) == LET b == Build(<<Seed, x, i, 2>>, n, d, p, IF cnt = 11 THEN i ELSE 1 + ((x + 2 * i) % 11)) IN
               [op |-> "isSmooth", f |-> IF Len(b.f) = 0 THEN << <<[j \in 1..(n + 1) |-> IF j = 1 THEN d ELSE 0], 0>> >> ELSE b.f, known |-> b.known]
  IN [n |-> n, d |-> d, p |-> p, part |-> "random", cmds |-> << [op |-> "ctx", p |-> p, prec |-> 1 + Rnd(<<Seed, x, 3>>, 4)] >> \o [i \in 1..cnt |-> mk(i)]]
Gen(x) == Sharded(Len(Exh), LAMBDA i : Exh[i]) \o Sharded(Pick(130, 1500), RndSess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "isSmooth" THEN
    LET want == SmoothForm(e.f, sess.n, sess.d, sess.p) IN
    IF e.known # "" /\ want # (e.known = "smooth") THEN Bad("specification unsound: the construction is " \o e.known)
    ELSE IF e.res = want THEN Ok(a) ELSE Bad("isSmooth is " \o (IF e.res THEN "true for a singular form" ELSE "false for a smooth form"))
  ELSE Ok(a)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
