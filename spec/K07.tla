-------------------------------- MODULE K07 --------------------------------
(***************************************************************************)
(* Exponent vectors: enumeration, order, arithmetic, and the path function  *)
(* tweak, specified as a machine that removes one unit from the first       *)
(* positive entry at a time.                                                *)
(***************************************************************************)
EXTENDS Big
FirstPos(v) == CHOOSE i \in 1..Len(v) : v[i] > 0 /\ \A j \in 1..(i - 1) : v[j] <= 0
RECURSIVE Tweak(_, _)
Tweak(v, r) == IF r <= 0 \/ \A i \in 1..Len(v) : v[i] <= 0 THEN v
               ELSE LET i == FirstPos(v) t == Min2(r, v[i]) IN Tweak([v EXCEPT ![i] = @ - t], r - t)   \* t unit steps from the same entry
TweakSteps(v, r) == FoldLeft(LAMBDA w, k : IF \A i \in 1..Len(w) : w[i] <= 0 THEN w ELSE LET i == FirstPos(w) IN [w EXCEPT ![i] = @ - 1], v, [k \in 1..r |-> k])
ASSUME Mode = "model" => \A v \in [1..3 -> 0..3], r \in 0..10 : Tweak(v, r) = TweakSteps(v, r) /\ SumSeq(Tweak(v, r)) = Max2(0, SumSeq(v) - r)
\* the enumeration used by the whole specification is what it should be
ASSUME Mode = "model" => \A len \in 1..4, d \in 0..5 : LET T == Tuples(len, d) IN
          /\ Range1(T) = {v \in [1..len -> 0..d] : SumSeq(v) = d} /\ Len(T) = BinomI(d + len - 1, len - 1)
          /\ \A i, j \in 1..Len(T) : (i < j) <=> LexLess(T[i], T[j])
TupArgs == << <<0, 1>>, <<1, 1>>, <<7, 1>>, <<0, 2>>, <<1, 2>>, <<5, 2>>, <<40, 2>>, <<0, 3>>, <<1, 3>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<5, 3>>, <<9, 3>>, <<20, 3>>, <<0, 4>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<4, 4>>, <<8, 4>>, <<0, 5>>, <<1, 5>>, <<3, 5>>, <<5, 5>>, <<2, 7>>, <<1, 9>>, <<0, 8>>, <<1000, 2>>, <<100, 3>>, <<30, 4>>, <<12, 5>>, <<9, 6>>, <<6, 8>>, <<3, 12>>, <<2, 30>>, <<1, 70>> >>
TupSession == [cmds |-> FlattenSeq([i \in 1..Len(TupArgs) |-> << [op |-> "tuples", d |-> TupArgs[i][1], n |-> TupArgs[i][2]] @@ (IF i % 3 = 0 THEN [dirty |-> TRUE] ELSE <<>>) >>])]
RndVec(key, len, lo, hi) == [i \in 1..len |-> lo + Rnd(key \o <<i>>, hi - lo + 1)]
\* all pairs of short vectors for the order
Small(len, hi) == LET q == SetToSeq([1..len -> 0..hi]) IN q
LessAll(len, hi) == LET q == Small(len, hi) IN [i \in 1..Len(q) |-> [cmds |-> [j \in 1..Len(q) |-> [op |-> "less", a |-> q[i], b |-> q[j]]]]]
TweakAll == LET q == Small(3, 3) IN [i \in 1..Len(q) |-> [cmds |-> FlattenSeq([r \in 1..12 |-> << [op |-> "tweak", a |-> q[i], k |-> r - 1] >>]) \o
              << [op |-> "tweak_step", a |-> q[i]] >> \o [j \in 1..3 |-> [op |-> "diff", a |-> [q[i] EXCEPT ![j] = @ + 1], i |-> j - 1]] ]]
Rand(k) == [cmds |-> FlattenSeq([t \in 1..12 |-> LET key == <<Seed, k, t>> len == 1 + Rnd(key \o <<1>>, 6) big == IF Rnd(key \o <<2>>, 2) = 0 THEN 3 ELSE 20000
                                     a == RndVec(key \o <<3>>, len, -big, big) b == IF Rnd(key \o <<9>>, 4) = 0 THEN [a EXCEPT ![1 + Rnd(key \o <<10>>, len)] = @ + 1] ELSE RndVec(key \o <<4>>, len, -big, big)
                                     pz == RndVec(key \o <<5>>, len, 0, IF big = 3 THEN 4 ELSE 300)
                                 IN << [op |-> "less", a |-> a, b |-> b], [op |-> "vecops", a |-> a, b |-> b, k |-> Rnd(key \o <<6>>, 2 * big + 1) - big],
                                       [op |-> "vecmat", m |-> [i \in 1..(1 + Rnd(key \o <<7>>, 4)) |-> RndVec(key \o <<8, i>>, len, -50, 50)], a |-> RndVec(key \o <<3>>, len, -1000, 1000)],
                                       [op |-> "vecarr", a |-> a], [op |-> "vecmax", a |-> a],
                                       [op |-> "tweak", a |-> pz, k |-> Rnd(key \o <<11>>, 1 + SumSeq(pz) + 2)], [op |-> "diff", a |-> [i \in 1..len |-> pz[i] + 1], i |-> Rnd(key \o <<12>>, len)] >>])]
\* entries over the whole range of a machine word (decimal strings), every result still inside it
MaxW == BSub(BPow(2, 63), 1)
MinW == BNeg(BPow(2, 63))
InW(x) == BLe(MinW, x) /\ BLe(x, MaxW)
AllW(v) == \A i \in 1..Len(v) : InW(v[i])
Marks == << "0", "1", "-1", BStr(BPow(2, 31)), BSub(BPow(2, 31), 1), BNeg(BPow(2, 31)), BPow(2, 32), BSub(BPow(2, 32), 1), BAdd(BPow(2, 32), 1), BPow(2, 62), MaxW, MinW, BNeg(MaxW), BNeg(BPow(2, 33)) >>
WEnt(key, bits) == IF Rnd(key \o <<1>>, 3) = 0 /\ bits >= 63 THEN Marks[1 + Rnd(key \o <<2>>, Len(Marks))] ELSE RndInt(key \o <<3>>, 1 + Rnd(key \o <<4>>, bits))
WVec(key, len, bits) == [i \in 1..len |-> WEnt(key \o <<i>>, bits)]
BigVec(k) == [cmds |-> FlattenSeq([t \in 1..12 |-> LET key == <<Seed, k, t, 41>> len == 1 + Rnd(key \o <<1>>, 7)
                   a == WVec(key \o <<2>>, len, 63) b == IF Rnd(key \o <<3>>, 3) = 0 THEN [a EXCEPT ![1 + Rnd(key \o <<4>>, len)] = WEnt(key \o <<5>>, 63)] ELSE WVec(key \o <<6>>, len, 63)
                   h1 == WVec(key \o <<7>>, len, 62) h2 == WVec(key \o <<8>>, len, 62)
                   c1 == WVec(key \o <<9>>, len, 40) kk == RndInt(key \o <<10>>, 22)
                   d1 == WVec(key \o <<11>>, len, 30) d2 == WVec(key \o <<12>>, len, 30) e1 == WVec(key \o <<15>>, len, 55) e2 == [i \in 1..len |-> Rnd(key \o <<16, i>>, 5) - 2]
                   ps == [i \in 1..len |-> BAbs(a[i])] pos == [i \in 1..len |-> IF InW(ps[i]) /\ ~BEq(ps[i], 0) THEN ps[i] ELSE "7"]
                   B(kind, x, y, z) == [op |-> "vecbig", kind |-> kind, a |-> x, b |-> y, k |-> z]
               IN << B("less", a, b, 0), B("less", a, a, 0), B("add", h1, h2, 0), B("sub", h1, h2, 0), B("scal", c1, c1, kk), B("dot", d1, d2, 0), B("dot", e1, BStrV(e2), 0),
                     B("mat", d1, d2, 0) @@ [w |-> WVec(key \o <<13>>, len, 30)], B("diff", pos, pos, Rnd(key \o <<14>>, len)), B("tweak", pos, pos, Rnd(key \o <<17>>, 40)), B("arr", a, a, 0), B("max", a, a, 0) >>])]
\* many unit steps
LongTweak == [cmds |-> [i \in 1..8 |-> LET a == RndVec(<<Seed, i, 51>>, 1 + (i % 5), 0, 700) IN [op |-> "tweak", a |-> a, k |-> Rnd(<<Seed, i, 52>>, SumSeq(a) + 3)]]]
LessLen == [cmds |-> << [op |-> "less", a |-> <<1, 2>>, b |-> <<1, 2, 0>>], [op |-> "less", a |-> <<5>>, b |-> <<5>>] >>]
Gen(x) == << TupSession >> \o LessAll(2, 3) \o LessAll(3, 2) \o TweakAll \o [k \in 1..Pick(40, 1000) |-> Rand(k)] \o [k \in 1..Pick(40, 1000) |-> BigVec(k)] \o << LongTweak >>
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Dot(a, b) == FoldLeft(LAMBDA x, i : x + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])
RECURSIVE BLexLess(_, _, _)
BLexLess(a, b, i) == i <= Len(a) /\ (BLt(a[i], b[i]) \/ (BEq(a[i], b[i]) /\ BLexLess(a, b, i + 1)))
RECURSIVE BTweak(_, _, _)
BTweak(v, r, i) == IF r = 0 \/ i > Len(v) THEN v ELSE LET t == IF BLe(v[i], 0) THEN "0" ELSE IF BLt(v[i], r) THEN v[i] ELSE BStr(r) IN BTweak([v EXCEPT ![i] = BSub(@, t)], r - BInt(t), i + 1)
BMax(v) == CHOOSE x \in Range1(v) : \A y \in Range1(v) : BLe(y, x)
JudgeBig(e) == LET n == Len(e.a) V(f(_)) == [i \in 1..n |-> f(i)] IN
  CASE e.kind = "less" -> e.res = <<BLexLess(e.a, e.b, 1), BLexLess(e.b, e.a, 1), BLexLess(e.a, e.b, 1)>>
    [] e.kind = "add" -> LET w == V(LAMBDA i : BAdd(e.a[i], e.b[i])) IN ~AllW(w) \/ e.res = <<w, w>>
    [] e.kind = "sub" -> LET w == V(LAMBDA i : BSub(e.a[i], e.b[i])) IN ~AllW(w) \/ e.res = <<w, w>>
    [] e.kind = "scal" -> LET w == V(LAMBDA i : BMul(e.k, e.a[i])) IN ~AllW(w) \/ e.res = <<w, w>>
    [] e.kind = "dot" -> LET w == BDot(e.a, e.b) IN e.res = <<w, w>>   \* entries small enough that every partial sum fits
    [] e.kind = "mat" -> e.res = <<<<BDot(e.a, e.w), BDot(e.b, e.w)>>>>
    [] e.kind = "diff" -> e.res = <<[i \in 1..n |-> IF i = e.k + 1 THEN BSub(e.a[i], 1) ELSE BStr(e.a[i])]>>
    [] e.kind = "tweak" -> e.res = <<BTweak(BStrV(e.a), e.k, 1)>>
    [] e.kind = "arr" -> e.res = <<BStrV(e.a) \o <<"77">>>>
    [] e.kind = "max" -> e.res = <<BMax(BStrV(e.a))>>
    [] OTHER -> FALSE
Judge(e) ==
  CASE e.op = "tuples" -> IF e.res = Tuples(e.n, e.d) THEN "ok" ELSE "tuple_list_generator does not list the exponent vectors once each in increasing order"
    [] e.op = "less" -> IF e.res = <<LexLess(e.a, e.b), LexLess(e.b, e.a), LexLess(e.a, e.b)>> THEN "ok" ELSE "the comparison is not the lexicographic order"
    [] e.op = "vecops" -> IF e.res = [add |-> VAdd(e.a, e.b), sub |-> VSub(e.a, e.b), scal |-> VScal(e.k, e.a), dot |-> Dot(e.a, e.b), addal |-> VAdd(e.a, e.b), subal |-> VSub(e.a, e.b)] THEN "ok" ELSE "vector arithmetic is wrong"
    [] e.op = "vecmat" -> IF e.res = [i \in 1..Len(e.m) |-> Dot(e.m[i], e.a)] THEN "ok" ELSE "matrix times vector is wrong"
    [] e.op = "vecarr" -> IF e.res.arr = e.a \o <<77, 77>> /\ e.res.back = e.a THEN "ok" ELSE "array conversion is wrong"
    [] e.op = "vecmax" -> IF e.res = SeqMax(e.a) THEN "ok" ELSE "max is wrong"
    [] e.op = "diff" -> IF e.res = [e.a EXCEPT ![e.i + 1] = @ - 1] THEN "ok" ELSE "diff does not subtract one at the index"
    [] e.op = "tweak" -> IF e.res = Tweak(e.a, e.k) THEN "ok" ELSE "tweak does not remove units from the first positive entries"
    [] e.op = "vecbig" -> IF JudgeBig(e) THEN "ok" ELSE "vectors with entries of a whole machine word: " \o e.kind \o " is wrong"
    [] e.op = "tweak_step" -> IF e.res = Tweak(e.a, 1) THEN "ok" ELSE "tweak_step does not remove one unit from the first positive entry"
    [] OTHER -> "unknown operation"
Step(sess, a, e) == IF "died" \in DOMAIN e THEN (IF e.op = "diff" /\ e.a[e.i + 1] <= 0 /\ e.died = "abort" THEN Ok(a) ELSE Bad(e.op \o " did not return: " \o e.died)) ELSE LET w == Judge(e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
