-------------------------------- MODULE Z06 --------------------------------
(***************************************************************************)
(* Validity: which requests are answered.  A request (equation, p, options, encoding, entry point) is     *)
(* valid when every precondition holds; the code must answer exactly the valid ones and must                *)
(* terminate the program (abort or exit with an error) otherwise.                                              *)
(***************************************************************************)
EXTENDS Zeta, Smooth
Supported == { <<2, d>> : d \in 3..9 } \cup { <<3, d>> : d \in 4..6 }
\* the terms of the Frobenius formula by default, needed for the precision options
DefN(n, d, p) == CASE n = 2 /\ d = 3 -> IF p < 17 THEN <<2, 2>> ELSE <<0, 1>>
                   [] n = 2 /\ d = 4 -> IF p < 5 THEN <<4, 4>> ELSE IF p < 17 THEN <<3, 3>> ELSE <<2, 2>>
                   [] n = 2 /\ d = 5 -> IF p < 5 THEN <<6, 6>> ELSE IF p < 7 THEN <<4, 5>> ELSE <<4, 4>>
                   [] n = 3 /\ d = 4 -> IF p < 5 THEN <<7, 7, 8>> ELSE IF p < 7 THEN <<4, 5, 5>> ELSE IF p < 20 THEN <<4, 4, 3>> ELSE IF p < 42 THEN <<3, 3, 3>> ELSE <<3, 3, 2>>
ROf(n, N, ab, inc) == [i \in 1..n |-> LET x == ab - n + i r == N[i] + i - n IN IF inc = 1 THEN Max2(r, x) ELSE IF x <= 0 THEN 0 ELSE x]
OptionsOk(n, d, p, e) == "abs" \notin DOMAIN e \/ e.abs <= 0 \/ p >= 2 * n + SeqMax(ROf(n, DefN(n, d, p), e.abs, e.inc))
FormOf(e, p) == [t \in 1..Len(e.f) |-> <<e.f[t][1], Red(e.f[t][2], p)>>]
ValidForm(n, d, p, e) == Len(e.f) > 0 /\ d > n /\ d % p # 0 /\ IsSmoothAlg(FormOf(e, p), n, d, p)
Valid(n, d, p, e) ==
  CASE e.op = "zeta" -> <<n, d>> \in Supported /\ ("ncoef" \notin DOMAIN e \/ e.ncoef = Len(e.f)) /\ ValidForm(n, d, p, e) /\ OptionsOk(n, d, p, e)
    [] e.op = "prog" -> ValidForm(n, d, p, e) /\ e.ncoef = NTup(n + 1, d)
    [] e.op = "new" -> IF e.kind \in {"nd", "hypnd"} THEN d > n /\ d % p # 0 /\ IsNDAlg(FormOf(e, p), n, d, p) ELSE ValidForm(n, d, p, e)
    [] OTHER -> TRUE
\* ---- requests
VecText(q) == "[" \o FoldLeft(LAMBDA x, i : x \o (IF i = 1 THEN "" ELSE " ") \o BStr(q[i]), "", [i \in 1..Len(q) |-> i]) \o "]"
Mons(f) == [i \in 1..Len(f) |-> f[i][1]]
Coefs(f) == [i \in 1..Len(f) |-> BStr(f[i][2])]
Text(f, p, k) == ToString(p) \o "\n[" \o FoldLeft(LAMBDA x, i : x \o " " \o VecText(f[i][1]), "", [i \in 1..Len(f) |-> i]) \o " ]\n" \o VecText([i \in 1..k |-> IF i <= Len(f) THEN f[i][2] ELSE 1]) \o "\n"
Cut(q, k) == [i \in 1..k |-> IF i <= Len(q) THEN q[i] ELSE "1"]
ZCmd(how, f, p, k) ==
  [op |-> "zeta", how |-> how, f |-> f, p |-> p] @@
  (CASE how = "map" -> <<>>
     [] how = "text" -> [text |-> Text(f, p, k), ncoef |-> k]
     [] OTHER -> [mons |-> Mons(f), coefs |-> Cut(Coefs(f), k), ncoef |-> k])
FullVec(f, n, d, p) == LET T == Tuples(n + 1, d) IN [j \in 1..Len(T) |-> LET I == SelectSeq(f, LAMBDA t : t[1] = T[j]) IN IF Len(I) = 0 THEN ZeroOf(p) ELSE I[1][2]]
PArg(n, d, p) == IF d = 3 THEN IF p = 2 THEN <<"9", "[4 4]", "[3 3 3]">> ELSE <<"3", "[2 2]", "[2 2 2]">> ELSE IF n = 2 THEN <<"7", "[4 4]", "[5 4 3 3 3 3 3]">> ELSE <<"16", "[7 7 8]", "[24 23 22 21 20 19 18 17 16 15 14 13 12 11 10 9 8 7 6 5 5 5]">>
PCmd(f, n, d, p, more) == LET v == FullVec(f, n, d, p) a == PArg(n, d, p) w == IF more > 0 THEN v \o [i \in 1..more |-> 0] ELSE SubSeq(v, 1, Len(v) + more) IN
  [op |-> "prog", f |-> f, ncoef |-> Len(w), lines |-> << ToString(p), a[1], ToString(n), ToString(d), VecText(w), a[2], a[3] >>, tries |-> 20]
Fill0(f, n, d) == IF Len(f) = 0 THEN << <<[j \in 1..(n + 1) |-> IF j = 1 THEN d ELSE 0], 0>> >> ELSE f
\* the equations: most are singular
Build(key, n, d, p, c) ==
  LET len == n + 1 R0 == RndForm(key, len, d, p) IN
  Fill0(CASE c = 1 -> Moved(key, NodeForm(key, len, d, p), len, d, p)
    [] c = 2 -> ProductForm(key, len, d, 1, p)
    [] c = 3 -> SquareFactor(key, len, d, 1, p)
    [] c = 4 -> Moved(key, SelectSeq(R0, LAMBDA t : t[1][1] = 0), len, d, p)                \* a cone
    [] c = 5 -> [t \in 1..Len(R0) |-> <<R0[t][1], IF BIsInt(R0[t][2]) THEN p * R0[t][2] ELSE 0>>]       \* zero modulo p
    [] c = 6 -> IF d >= 4 THEN SquareIdeal(key, len, d, 2, p) ELSE ProductForm(key, len, d, 1, p)      \* singular at conjugate points only, as a rule
    [] c = 7 -> KleinForm(key, len, d, p)
    [] c = 8 -> FermatForm(key, len, d, p)
    [] c = 9 -> SelectSeq(FermatForm(key, len, d, p), LAMBDA t : t[1][1] = 0)
    [] c = 10 -> SelectSeq(R0, LAMBDA t : t[1][1] < d)
    [] OTHER -> R0, n, d)
One(n, d, p, kind, cmds) == [n |-> n, d |-> d, p |-> p, kind |-> kind, timeout |-> 400, cmds |-> cmds]
Hows == <<"map", "list", "list64", "text">>
\* any equation, any entry point: one per session
FormSess(x) ==
  LET r == RndEl(<<Seed, x, 1>>, << <<2, 3>>, <<2, 3>>, <<2, 4>> >>) n == r[1] d == r[2]
      p == RndEl(<<Seed, x, 2>>, SelectSeq(<<2, 3, 5, 7, 11, 13, 23, 101>>, LAMBDA y : d % y # 0))
      f == Build(<<Seed, x, 3>>, n, d, p, 1 + Rnd(<<Seed, x, 4>>, 13)) h == Rnd(<<Seed, x, 5>>, 10) IN
  One(n, d, p, "form", IF h < 7 THEN << ZCmd(Hows[1 + (h % 4)], f, p, Len(f)) @@ (IF Rnd(<<Seed, x, 6>>, 2) = 0 THEN [better |-> 0] ELSE <<>>) >> ELSE << PCmd(f, n, d, p, 0) >>)
\* the objects
ObjSess(x) ==
  LET r == RndEl(<<Seed, x, 11>>, << <<2, 3>>, <<2, 4>>, <<1, 3>>, <<1, 4>>, <<2, 5>>, <<3, 4>>, <<2, 2>>, <<3, 3>>, <<1, 1>>, <<2, 6>>, <<1, 6>> >>) n == r[1] d == r[2]
      p == RndEl(<<Seed, x, 12>>, <<2, 3, 5, 7, 11, 13, 23, 101>>) k == 1 + Rnd(<<Seed, x, 16>>, 4)
      f == Build(<<Seed, x, 13>>, n, d, p, IF d < 3 THEN 11 ELSE 1 + Rnd(<<Seed, x, 14>>, 13)) how == RndEl(<<Seed, x, 15>>, <<"map", "mapbar", "vec", "vecbar">>) IN
  One(n, d, p, "object", << [op |-> "ctx", p |-> p, prec |-> k],
     [op |-> "new", id |-> 1, kind |-> RndEl(<<Seed, x, 17>>, <<"dR", "hyp", "nd", "hypnd">>), how |-> how, p |-> p, prec |-> k, n |-> n, d |-> d, f |-> f] @@ (IF how \in {"vec", "vecbar"} THEN [vec |-> FullVec(f, n, d, p)] ELSE <<>>) >>)
\* p divides d; d <= n; no table
ParSpace == << <<2, 3, 3>>, <<2, 4, 2>>, <<2, 5, 5>>, <<2, 6, 2>>, <<2, 6, 3>>, <<2, 7, 7>>, <<2, 8, 2>>, <<2, 9, 3>>, <<3, 4, 2>>, <<3, 5, 5>>, <<3, 6, 3>>, <<2, 2, 5>>, <<2, 2, 3>>, <<2, 1, 5>>, <<3, 3, 5>>, <<3, 3, 2>>, <<3, 2, 5>>, <<3, 3, 7>>,
               <<2, 10, 7>>, <<2, 11, 3>>, <<1, 3, 5>>, <<1, 4, 7>>, <<3, 7, 5>>, <<4, 5, 7>>, <<4, 3, 7>>, <<4, 4, 5>>, <<1, 2, 7>> >>
ParSess(i, j) == LET r == ParSpace[i] key == <<Seed, i, j, 21>> f == Fill0(IF j = 1 \/ r[1] > 2 THEN (IF j % 2 = 1 THEN FermatForm(key, r[1] + 1, r[2], r[3]) ELSE KleinForm(key, r[1] + 1, r[2], r[3])) ELSE RndForm(key, r[1] + 1, r[2], r[3]), r[1], r[2]) IN
  One(r[1], r[2], r[3], "parameters", << ZCmd(Hows[1 + ((i + j) % 4)], f, r[3], Len(f)) @@ (IF j = 2 THEN [better |-> 0] ELSE <<>>) >>)
\* numbers of monomials and coefficients
LenSess(x) == LET r == RndEl(<<Seed, x, 31>>, << <<2, 3, 7>>, <<2, 4, 5>>, <<2, 3, 101>>, <<2, 3, 2>> >>) f == SmoothF(<<Seed, x, 32>>, r[1], r[2], r[3], "naive", 1) k == Len(f) + RndEl(<<Seed, x, 33>>, <<-1, 1, -2, 3, 0>>) h == x % 4 IN
  One(r[1], r[2], r[3], "lengths", IF h = 3 THEN << PCmd(f, r[1], r[2], r[3], RndEl(<<Seed, x, 34>>, <<-1, 1, -5, 2, 0>>)) >> ELSE << ZCmd(Hows[2 + h], f, r[3], IF x % 13 = 0 THEN 0 ELSE k) >>)
\* precision options for small primes
AbsSpace == << <<2, 3, 5>>, <<2, 3, 7>>, <<2, 3, 2>>, <<2, 4, 3>>, <<2, 4, 5>>, <<2, 4, 7>>, <<2, 4, 11>>, <<2, 3, 11>>, <<2, 3, 17>>, <<2, 5, 3>>, <<3, 4, 3>>, <<3, 4, 5>>, <<3, 4, 7>> >>
AbsSess(i, ab, inc) == LET r == AbsSpace[i] f == IF r[1] = 3 \/ r[2] = 5 THEN FermatForm(<<Seed, i, ab>>, r[1] + 1, r[2], r[3]) ELSE SmoothF(<<Seed, i, ab, 41>>, r[1], r[2], r[3], "naive", 1) IN
  One(r[1], r[2], r[3], "precision", << ZCmd("map", f, r[3], 0) @@ [abs |-> ab, inc |-> inc] >>)
\* small primes with a published table that does not suffice (known findings), and large degrees
ValidSpace == << <<2, 5, 2>>, <<2, 5, 7>>, <<2, 6, 5>>, <<2, 3, 46337>>, <<3, 4, 47>> >> \o (IF Thorough THEN << <<2, 7, 2>>, <<2, 7, 3>>, <<2, 7, 5>>, <<2, 8, 3>>, <<2, 8, 5>>, <<2, 9, 5>>, <<3, 4, 3>> >> ELSE <<>>)
ValSess(i) == LET r == ValidSpace[i] f == FermatForm(<<Seed, i, 51>>, r[1] + 1, r[2], r[3]) IN One(r[1], r[2], r[3], "valid", << ZCmd("map", f, r[3], 0) >>)
EmptySess(x) == One(2, 3, 7, "empty", << ZCmd(Hows[x], <<>>, 7, 0) >>)
NVal == Len(ValidSpace) NPar == Len(ParSpace) NAbs == Len(AbsSpace)
Parts == << [n |-> NVal, F |-> 1], [n |-> 2 * NPar, F |-> 2], [n |-> 10 * NAbs, F |-> 3], [n |-> Pick(60, 400), F |-> 4], [n |-> Pick(120, 2000), F |-> 5], [n |-> Pick(120, 2000), F |-> 6], [n |-> 4, F |-> 7] >>
Mk(k, x) == CASE k = 1 -> ValSess(x) [] k = 2 -> ParSess(1 + ((x - 1) \div 2), 1 + (x % 2)) [] k = 3 -> AbsSess(1 + ((x - 1) \div 10), 1 + (((x - 1) \div 2) % 5), x % 2)
              [] k = 4 -> LenSess(x) [] k = 5 -> FormSess(x) [] k = 7 -> EmptySess(x) [] OTHER -> ObjSess(x)
Index == FlattenSeq([k \in 1..7 |-> [x \in 1..Parts[k].n |-> <<k, x>>]])
Gen(y) == Sharded(Len(Index), LAMBDA i : Mk(Index[i][1], Index[i][2]))
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Outcome(e) == IF "died" \in DOMAIN e THEN (IF e.died \in {"abort", "exit"} THEN "rejected" ELSE e.died)
              ELSE IF e.op = "prog" THEN (IF e.exit = "ok" THEN (IF e.res.written /\ e.res.good THEN "answered" ELSE "no output") ELSE IF e.exit \in {"abort", "fail"} THEN (IF e.res.written THEN "rejected with an answer" ELSE "rejected") ELSE e.exit)
              ELSE "answered"
Step(sess, a, e) ==
  LET v == Valid(sess.n, sess.d, sess.p, e) o == Outcome(e) IN
  IF v /\ o = "answered" THEN Ok(a)
  ELSE IF ~v /\ o = "rejected" THEN Ok(a)
  ELSE IF v THEN Bad("a valid request is not answered: " \o o) ELSE Bad("an invalid request is not rejected cleanly: " \o o)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
