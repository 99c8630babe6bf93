-------------------------------- MODULE Z04 --------------------------------
(***************************************************************************)
(* One polynomial, many encodings: map, lists of monomials and coefficients (machine or big        *)
(* integers), text, and the input file of the frob program; terms reordered, coefficients changed   *)
(* by multiples of p, terms with coefficient zero added.  The state is the zeta polynomial          *)
(* the first encoding gave; every other encoding must give the same, also with options.                               *)
(***************************************************************************)
EXTENDS Zeta, Cyclo
\* n, d, p, style, number of equations, number of encodings, runs of the program
Rows == << <<2, 3, 2, "naive", 10, 10, 1>>, <<2, 3, 5, "naive", 6, 12, 3>>, <<2, 3, 7, "naive", 6, 12, 3>>, <<2, 3, 11, "sparse", 6, 12, 3>>, <<2, 3, 13, "klein", 3, 10, 3>>, <<2, 3, 7, "klein", 2, 8, 1>>, <<2, 3, 19, "zeros", 2, 6, 1>>, <<2, 4, 11, "klein", 1, 6, 1>>, <<2, 3, 17, "naive", 6, 12, 3>>, <<2, 3, 23, "even", 4, 12, 3>>, <<2, 3, 101, "naive", 4, 10, 2>>, <<2, 3, 1009, "zeros", 2, 8, 1>>,
           <<2, 4, 3, "naive", 2, 5, 1>>, <<2, 4, 5, "klein", 3, 8, 2>>, <<2, 4, 7, "naive", 4, 8, 2>>, <<2, 4, 11, "even", 4, 8, 2>>, <<2, 4, 13, "sparse", 4, 8, 2>>, <<2, 4, 17, "naive", 4, 8, 2>>, <<2, 4, 31, "naive", 3, 8, 2>>, <<2, 4, 101, "sparse", 1, 6, 1>>,
           <<2, 5, 7, "fermat", 1, 2, 1>>, <<3, 4, 23, "fermat", 1, 0, 1>>, <<3, 4, 5, "fermat", 1, 0, 1>>, <<3, 4, 11, "fermat", 1, 0, 1>>, <<3, 4, 43, "fermat", 1, 0, 1>> >>
Rows2 == << <<2, 3, 7, "zeros", 100, 20, 3>>, <<2, 4, 11, "naive", 20, 20, 3>>, <<2, 5, 7, "sparse", 1, 3, 1>>, <<2, 5, 11, "naive", 1, 3, 1>>, <<2, 6, 5, "fermat", 1, 3, 1>>, <<3, 4, 3, "fermat", 1, 1, 1>>, <<3, 4, 13, "sparse", 1, 2, 1>>, <<3, 4, 37, "sparse", 1, 1, 2>>, <<3, 4, 101, "sparse", 1, 1, 1>>, <<3, 4, 7, "fermat", 1, 2, 1>>, <<3, 4, 19, "sparse", 1, 1, 1>>, <<3, 4, 41, "fermat", 1, 1, 1>> >>
AllRows == IF Thorough THEN Rows \o Rows2 ELSE Rows
\* what to write in the input file: working precision, terms of the Frobenius formula, precision of the coefficients
Arg(n, d, p) ==
  CASE n = 2 /\ d = 3 /\ p = 2 -> <<"9", "[4 4]", "[3 3 3]">>
    [] n = 2 /\ d = 3 /\ p >= 5 /\ p < 17 -> <<"3", "[2 2]", "[2 2 2]">>
    [] n = 2 /\ d = 3 -> <<"1", "[0 1]", "[3 1 1]">>
    [] n = 2 /\ d = 4 /\ p < 5 -> <<"7", "[4 4]", "[5 4 3 3 3 3 3]">>
    [] n = 2 /\ d = 4 /\ p < 17 -> <<"5", "[3 3]", "[5 4 3 3 3 3 3]">>
    [] n = 2 /\ d = 4 -> <<"3", "[2 2]", "[4 3 2 2 2 2 2]">>
    [] n = 2 /\ d = 5 -> <<"7", "[4 4]", "[9 8 7 6 5 4 4 4 4 4 4 4 4]">>
    [] n = 2 /\ d = 6 -> <<"13", "[7 7]", "[15 14 13 12 11 10 9 8 7 6 6 6 6 6 6 6 6 6 6 6 6]">>
    [] n = 3 /\ p > 42 -> <<"4", "[3 3 2]", "[22 21 20 19 18 17 16 15 14 13 12 11 10 9 8 7 6 5 4 3 2 2]">>
    [] OTHER -> <<"16", "[7 7 8]", "[24 23 22 21 20 19 18 17 16 15 14 13 12 11 10 9 8 7 6 5 5 5]">>
\* a pseudo-random permutation of a sequence
RECURSIVE Shuffle(_, _)
Shuffle(key, q) == IF Len(q) <= 1 THEN q ELSE LET i == 1 + Rnd(key \o <<Len(q)>>, Len(q)) IN <<q[i]>> \o Shuffle(key, SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
\* the same equation with some of the missing monomials as terms with coefficient zero or a multiple of p
Padded(key, f, n, d, p, wide) == LET T == Tuples(n + 1, d) has == {f[t][1] : t \in 1..Len(f)}
     more == SelectSeq(T, LAMBDA m : m \notin has /\ (wide = 2 \/ Rnd(key \o m, 3) = 0)) IN
   f \o [j \in 1..Len(more) |-> <<more[j], IF wide = 2 THEN 0 ELSE IF wide = 1 THEN LiftC(key \o <<j, 1>>, 0, p, 1) ELSE IF Rnd(key \o <<j, 2>>, 2) = 0 THEN 0 ELSE p * (Rnd(key \o <<j, 3>>, 5) - 2)>>]
Small(key, f, p) == [t \in 1..Len(f) |-> <<f[t][1], f[t][2] + p * (Rnd(key \o <<t>>, 9) - 4)>>]
\* any value that fits a machine word, up to the ends of its range
WordC(key, c, p) == LET h == Rnd(key, 8) top == BDiv(BSub(BSub(BPow(2, 63), 1), c), p) bot == BNeg(BDiv(BAdd(BPow(2, 63), c), p)) IN
   BAdd(c, BMul(p, IF h = 0 THEN top ELSE IF h = 1 THEN bot ELSE IF h = 2 THEN BDiv(BPow(2, 31), p) ELSE IF h = 3 THEN BNeg(BDiv(BPow(2, 32), p)) ELSE RndInt(key \o <<1>>, Max2(1, RndEl(key \o <<2>>, <<20, 32, 40, 50, 61>>) - BBits(p) + 1))))
WordF(key, f, p) == [t \in 1..Len(f) |-> <<f[t][1], WordC(key \o <<t, 5>>, f[t][2], p)>>]
Gap(key) == RndEl(key, <<" ", " ", "  ", "\n", "\t">>)
VecText(key, q) == "[" \o FoldLeft(LAMBDA x, i : x \o (IF i = 1 THEN "" ELSE Gap(key \o <<i>>)) \o BStr(q[i]), "", [i \in 1..Len(q) |-> i]) \o "]"
Text(key, f, p) == LET g == RndEl(key \o <<1>>, <<"\n", "\n", " ", "\n\n">>) IN
   ToString(p) \o g \o "[" \o FoldLeft(LAMBDA x, i : x \o (IF i = 1 THEN "" ELSE Gap(key \o <<i, 2>>)) \o VecText(key \o <<i, 3>>, f[i][1]), "", [i \in 1..Len(f) |-> i]) \o "]"
   \o RndEl(key \o <<2>>, <<"\n", " ", "">>) \o VecText(key \o <<3>>, [i \in 1..Len(f) |-> f[i][2]]) \o RndEl(key \o <<4>>, <<"\n", "", " ">>)
Mons(f) == [i \in 1..Len(f) |-> f[i][1]]
Coefs(f) == [i \in 1..Len(f) |-> BStr(f[i][2])]
Enc(key, f, n, d, p, k) ==
  LET pad(w) == IF Rnd(key \o <<11>>, 2) = 0 THEN f ELSE Padded(key \o <<12>>, f, n, d, p, w)
      wide == Shuffle(key \o <<13>>, LiftF(key \o <<14>>, pad(0), p, 1))
      small == Shuffle(key \o <<15>>, IF Rnd(key \o <<21>>, 2) = 0 THEN Small(key \o <<16>>, pad(0), p) ELSE WordF(key \o <<16>>, pad(0), p))
      any == IF Rnd(key \o <<17>>, 2) = 0 THEN wide ELSE small
      opt == IF Rnd(key \o <<18>>, 3) = 0 THEN [threads |-> 1 + Rnd(key \o <<19>>, 3)] ELSE <<>>
  IN CASE k % 4 = 0 -> [op |-> "zeta", how |-> "text", text |-> Text(key \o <<20>>, any, p)] @@ opt
       [] k % 4 = 1 -> [op |-> "zeta", how |-> "list", mons |-> Mons(any), coefs |-> Coefs(any), p |-> p] @@ opt
       [] k % 4 = 2 -> [op |-> "zeta", how |-> "list64", mons |-> Mons(small), coefs |-> Coefs(small), p |-> p] @@ opt
       [] OTHER -> [op |-> "zeta", how |-> "map", f |-> any, p |-> p] @@ opt
\* every missing monomial written out with coefficient zero, in the three forms
Dense(key, f, n, d, p) ==
  LET g == Shuffle(key \o <<41>>, Padded(key, f, n, d, p, 2)) IN
  << [op |-> "zeta", how |-> "text", text |-> Text(key \o <<42>>, g, p)], [op |-> "zeta", how |-> "list64", mons |-> Mons(g), coefs |-> Coefs(g), p |-> p],
     [op |-> "zeta", how |-> "map", f |-> g, p |-> p] >>
\* one equation with one choice of the options, through the four forms
Options(key, f, n, d, p) ==
  LET g == Shuffle(key \o <<51>>, WordF(key \o <<52>>, f, p))
      O(k) == [verbose |-> Rnd(key \o <<k, 53>>, 2), threads |-> 1 + Rnd(key \o <<k, 54>>, 3), abs |-> 1 + Rnd(key \o <<k, 55>>, 3), inc |-> k % 2, better |-> (k \div 2) % 2]
      sd(k) == [op |-> "seed", seed |-> 1 + Rnd(key \o <<k, 56>>, 100000)]
      forms == << [how |-> "map", f |-> g, p |-> p], [how |-> "text", text |-> Text(key \o <<57>>, g, p)], [how |-> "list", mons |-> Mons(g), coefs |-> Coefs(g), p |-> p], [how |-> "list64", mons |-> Mons(g), coefs |-> Coefs(g), p |-> p] >>
      r0 == Rnd(key \o <<58>>, 4)
  IN FlattenSeq([k \in 1..4 |-> FlattenSeq([j \in 1..4 |-> <<sd(k), [op |-> "zeta"] @@ forms[1 + ((j + r0) % 4)] @@ O(k)>>])])
CoefAt(f, m) == IF \E t \in 1..Len(f) : f[t][1] = m THEN f[CHOOSE t \in 1..Len(f) : f[t][1] = m][2] ELSE 0
Prog(key, f, n, d, p, k) ==
  LET T == Tuples(n + 1, d) h == Rnd(key \o <<30>>, 3)
      v == [j \in 1..Len(T) |-> LET c == CoefAt(f, T[j]) IN IF h = 0 THEN c ELSE IF h = 1 THEN c + p * (Rnd(key \o <<j, 31>>, 5) - 2) ELSE LiftC(key \o <<j, 32>>, c, p, 1)]
      a == Arg(n, d, p) fl == "[" \o FoldLeft(LAMBDA x, i : x \o (IF i = 1 THEN "" ELSE " ") \o BStr(v[i]), "", [i \in 1..Len(v) |-> i]) \o "]"
      L == IF n = 3 /\ k = 1 THEN << ToString(p), fl >> ELSE << ToString(p), a[1], ToString(n), ToString(d), fl, a[2], a[3] >>
      L2 == IF k = 0 THEN L ELSE IF Rnd(key \o <<33>>, 4) = 0 /\ n = 2 THEN L \o <<"", "">> ELSE L
  IN [op |-> "prog", lines |-> L2, f |-> f, short |-> IF n = 3 /\ k = 1 THEN 1 ELSE 0, threads |-> 1 + Rnd(key \o <<34>>, 4)] @@ (IF k = 0 \/ (Len(L2) # 7 /\ Rnd(key \o <<35>>, 3) = 0) THEN [noeol |-> TRUE] ELSE <<>>)
     @@ (IF Rnd(key \o <<35>>, 2) = 0 THEN [tries |-> RndEl(key \o <<36>>, <<1, 20, 500>>)] ELSE <<>>)
Units == FlattenSeq([i \in 1..Len(AllRows) |-> [k \in 1..AllRows[i][5] |-> <<i, k>>]])
Sess(y) == LET u == Units[Len(Units) + 1 - y] r == AllRows[u[1]] key == <<Seed, u[1], u[2], 74>> f == SmoothF(key, r[1], r[2], r[3], r[4], 1) IN
  [n |-> r[1], d |-> r[2], p |-> r[3], timeout |-> 800, cmds |->
    << [op |-> "zeta", how |-> "map", p |-> r[3], f |-> f] >>
    \o (IF r[6] > 2 THEN Dense(key \o <<3>>, f, r[1], r[2], r[3]) ELSE <<>>)
    \o (IF r[1] = 2 /\ r[2] < 5 /\ r[3] >= 11 /\ r[3] < 32 THEN Options(key \o <<4>>, f, r[1], r[2], r[3]) ELSE <<>>)
    \o [k \in 1..r[6] |-> Enc(key \o <<k, 1>>, f, r[1], r[2], r[3], k)] \o [k \in 1..r[7] |-> Prog(key \o <<k, 2>>, f, r[1], r[2], r[3], k)]]
\* a full input file whose seventh and last line is not terminated (a known finding: these are sessions of their own)
Unterminated(i) == LET key == <<Seed, i, 75>> r == Rows[IF i = 1 THEN 3 ELSE 15] f == SmoothF(key, r[1], r[2], r[3], r[4], 1) IN
  [n |-> r[1], d |-> r[2], p |-> r[3], kind |-> "unterminated", timeout |-> 800, cmds |-> << [op |-> "zeta", how |-> "map", p |-> r[3], f |-> f], Prog(key, f, r[1], r[2], r[3], 0) >>]
Gen(x) == Sharded(Len(Units) + 2, LAMBDA y : IF y > Len(Units) THEN Unterminated(y - Len(Units)) ELSE Sess(y))
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
\* a sparse form as a vector in the order of the exponent vectors
VecOf(f, n, d, p) == LET T == Tuples(n + 1, d) F == FoldLeft(LAMBDA g, t : [g EXCEPT ![t[1]] = Red(t[2], p)], [m \in Range1(T) |-> 0], f) IN [j \in 1..Len(T) |-> BStr(F[T[j]])]
VecOfSub(f, M, n, d, p) == LET T == Tuples(n + 1, d) G == Substitute([t \in 1..Len(f) |-> <<f[t][1], Red(f[t][2], p)>>], M, n + 1, d, p) IN [j \in 1..Len(T) |-> BStr(Red(G[T[j]], p))]
IsZeroMat(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : BIsZero(M[i][j])
ProgCheck(sess, a, e) ==
  LET n == sess.n d == sess.d p == sess.p v == e.res deg == DimPrim(n, d) IN
  IF e.exit # "ok" THEN "the program did not succeed on a valid input file: " \o e.exit
  ELSE IF ~v.written \/ ~v.good THEN "the output file is missing or malformed"
  ELSE IF v.p # p \/ v.n # n \/ v.d # d THEN "the output file has other parameters than the input file"
  ELSE IF [i \in 1..Len(v.forig) |-> BStr(v.forig[i])] # VecOf(e.f, n, d, p) THEN "the output file does not repeat the equation"
  ELSE IF ~IsZeroMat(v.M) /\ [i \in 1..Len(v.f) |-> BStr(v.f[i])] # VecOfSub(e.f, v.M, n, d, p) THEN "the equation used is not the given one in the coordinates of the output file"
  ELSE IF IsZeroMat(v.M) /\ v.f # v.forig THEN "without a change of variables the equation changed"
  ELSE IF v.zeta # a.z THEN "the program gives another zeta polynomial"
  ELSE IF Len(v.frob) # deg \/ \E i \in 1..deg : Len(v.frob[i]) # deg THEN "the Frobenius matrix has the wrong shape"
  ELSE IF v.rank # (IF n = 3 /\ d = 4 THEN 1 + CycRoots(a.z, p) ELSE 0) THEN "the rank is not the number of roots p * (root of unity) plus one"
  ELSE "ok"
OptKey(e) == <<e.abs, e.inc, e.better>>
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not answer a valid input: " \o e.died)
  ELSE IF e.op = "seed" THEN Ok(a)
  ELSE IF e.op = "prog" THEN LET w == ProgCheck(sess, a, e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
  ELSE IF "abs" \in DOMAIN e THEN
    LET at == {i \in 1..Len(a.o) : a.o[i][1] = OptKey(e)} IN
    IF at = {} THEN Ok([a EXCEPT !.o = Append(@, <<OptKey(e), e.res>>)])
    ELSE IF a.o[CHOOSE i \in at : TRUE][2] = e.res THEN Ok(a) ELSE Bad("with the same options the answer depends on the encoding: " \o e.how)
  ELSE IF a.z = <<>> THEN Ok([a EXCEPT !.z = e.res.zeta])
  ELSE IF e.res.zeta = a.z THEN Ok(a) ELSE Bad("the zeta polynomial depends on the encoding: " \o e.how)
InitSt(sess) == [z |-> <<>>, o |-> <<>>]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
