-------------------------------- MODULE K12 --------------------------------
(***************************************************************************)
(* Text form of polynomials.  The specification states the grammar of the   *)
(* text as a function from maps to strings, the reader as its inverse on    *)
(* any ordering of the terms and any white space, and the human form.       *)
(***************************************************************************)
EXTENDS Big
Join(q, sep) == IF Len(q) = 0 THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, q[1], Tail(q))
S(x) == BStr(x)
Human(f) == "{" \o Join([i \in 1..Len(f) |-> "(" \o Join([j \in 1..Len(f[i][1]) |-> S(f[i][1][j])], ", ") \o "): " \o S(f[i][2])], ",\n ") \o "}"
HumanVec(v) == "(" \o Join([j \in 1..Len(v) |-> S(v[j])], ", ") \o ")"
Text(f, ws) == "[" \o Join([i \in 1..Len(f) |-> "[" \o Join([j \in 1..Len(f[i][1]) |-> S(f[i][1][j])], " ") \o "]"], ws) \o "]" \o ws \o "[" \o Join([i \in 1..Len(f) |-> S(f[i][2])], " ") \o "]"
SortF(f) == SortSeq(f, LAMBDA a, b : LexLess(a[1], b[1]))
Rings == <<"zz_p", "ZZ_p", "ZZ", "int">>
Ps == << <<2, 1>>, <<3, 3>>, <<7, 1>>, <<23, 20>>, <<10007, 2>>, <<101, 9>>, <<5, 60>> >>
Q(p) == ModPow(p[1], p[2])
RndC(key, ring, p) == IF ring = "zz_p" THEN S(Rnd(key, p[1])) ELSE IF ring = "ZZ_p" THEN S(RndRes(key, Q(p))) ELSE IF ring = "int" THEN S(RndInt(key, 1 + Rnd(key \o <<1>>, 61))) ELSE RndInt(key, 1 + Rnd(key \o <<1>>, 300))
\* a map with m terms of length len: distinct monomials, arbitrary (also zero) coefficients, in increasing order
RndMap(key, len, m, ring, p) ==
  LET big == Rnd(key \o <<3>>, 5) = 0 neg == Rnd(key \o <<4>>, 6) = 0
      ms == {[j \in 1..len |-> Rnd(key \o <<i, j>>, IF big THEN 2000000 ELSE 6) - (IF neg THEN 3 ELSE 0)] : i \in 1..m}
      q == SetToSortSeq(ms, LexLess)
  IN [i \in 1..Len(q) |-> <<q[i], RndC(key \o <<i, 8>>, ring, p)>>]
Shuffle(q, key) == LET n == Len(q) ks == [i \in 1..n |-> <<Rnd(key \o <<i>>, 100000), i>>] o == SortSeq(ks, LexLess) IN [i \in 1..n |-> q[o[i][2]]]
Ws == <<"\n", " ", "\n\n", "  \n ", "\t">>
Session(k) ==
  LET key == <<Seed, k>> p == Ps[1 + (k % Len(Ps))] len == 1 + Rnd(key \o <<1>>, 6) IN
  [p |-> p, cmds |-> << [op |-> "ctx", p |-> p[1], prec |-> p[2]] >> \o FlattenSeq([t \in 1..6 |->
     LET ring == Rings[1 + ((t + k) % 4)] m == RndEl(key \o <<t, 2>>, IF t = 1 /\ k % 10 = 0 THEN <<64, 65, 100, 150>> ELSE <<1, 1, 2, 3, 5, 12, 40>>) f == RndMap(key \o <<t>>, len, m, ring, p) g == Shuffle(RndMap(key \o <<t, 5>>, len, m, "ZZ", p), key \o <<t, 6>>) IN
     << [op |-> "io", ring |-> ring, f |-> f] @@ (IF t % 2 = 0 THEN [dirty |-> TRUE] ELSE <<>>),
        [op |-> "ioread", text |-> Text(g, RndEl(key \o <<t, 7>>, Ws)), f |-> g],
        [op |-> "humvec", a |-> [j \in 1..Rnd(key \o <<t, 9>>, IF t = 3 THEN 80 ELSE 6) |-> Rnd(key \o <<t, 9, j>>, 2000) - 1000]] >>])]
Empty == << [p |-> Ps[3], cmds |-> << [op |-> "ctx", p |-> 7, prec |-> 1] >> \o [i \in 1..4 |-> [op |-> "io", ring |-> Rings[i], f |-> <<>>]] \o << [op |-> "ioread", text |-> "[] []", f |-> <<>>], [op |-> "humvec", a |-> <<>>] >>] >>
\* lists of different lengths are not a polynomial
Mismatch == [i \in 1..3 |-> [p |-> Ps[3], cmds |-> << [op |-> "ioread", text |-> <<"[[1 0] [0 1]] [3]", "[[1 0]] [3 4]", "[] [1]">>[i], mismatch |-> TRUE] >>]]
Gen(x) == [k \in 1..Pick(140, 2100) |-> Session(k)] \o Empty \o Mismatch
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
SameMap(back, f) == Len(back) = Len(f) /\ \A i \in 1..Len(f) : back[i][1] = f[i][1] /\ BEq(back[i][2], f[i][2])
Judge(sess, e) ==
  CASE e.op = "ctx" -> "ok"
    [] e.op = "io" -> IF ~e.res.good THEN "the reader does not accept what was written" ELSE IF ~SameMap(e.res.back, e.f) THEN "reading back gives another map" ELSE IF e.res.human # Human(e.f) THEN "the human readable form is wrong" ELSE "ok"
    [] e.op = "ioread" -> IF ~e.res.good THEN "the reader does not accept a polynomial" ELSE IF ~SameMap(e.res.back, SortF(e.f)) THEN "the reader gives another map" ELSE "ok"
    [] e.op = "humvec" -> IF e.res = HumanVec(e.a) THEN "ok" ELSE "the human readable form of a vector is wrong"
    [] OTHER -> "unknown operation"
Step(sess, a, e) == IF "mismatch" \in DOMAIN e THEN (IF "died" \in DOMAIN e /\ e.died = "abort" THEN Ok(a) ELSE Bad("lists of different lengths are accepted"))
  ELSE IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died) ELSE LET w == Judge(sess, e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
