-------------------------------- MODULE F02 --------------------------------
(***************************************************************************)
(* Every Frobenius routine returns the N-term truncation of Frob.tla (F02), and   *)
(* so they all agree (F01).  The class function is the one recorded from the       *)
(* general method, whose relations D01 checks; up to a pole order the specification  *)
(* also compares it with its own.                                                       *)
(***************************************************************************)
EXTENDS Frob
\* terms used per equation: the largest number of terms
\* equations with p <= n in the quick tier too: pole orders below p are reached by the small tables
Extra == << <<3, 4, 3, 7, "fermat", TRUE>>, <<2, 5, 2, 6, "zeros", FALSE>>, <<2, 5, 3, 5, "sparse", TRUE>>,
            \* so many terms that the binomial coefficients of the formula exceed one word
            <<1, 3, 2, 150, "dense", TRUE>>, <<1, 2, 3, 118, "dense", TRUE>>,
            \* p does not divide n
            <<3, 5, 2, 7, "fermat", FALSE>> >>
Long(F) == F.n = 1 /\ F.k > 100
MaxN(F) == IF Long(F) THEN 72 ELSE IF F.n = 3 THEN (IF F.d > 4 /\ ~Thorough THEN 1 ELSE 2) ELSE IF F.p > 1000 THEN 1 ELSE IF F.d >= 5 THEN 2 ELSE IF F.p > 20 THEN 2 ELSE IF F.p > 10 /\ ~Thorough THEN 3 ELSE 4
Ns(F) == IF Long(F) THEN <<1, 65, 67, 68, 72>> ELSE [i \in 1..MaxN(F) |-> i]
NCoord(F) == LET V == HilbertVec(F.n, F.d - 1) IN SumSeq([m \in 1..F.n |-> IF m * F.d - F.n - 1 + 1 \in 1..Len(V) THEN V[m * F.d - F.n] ELSE 0])
Coords(F, x) == LET c == NCoord(F) IN IF c <= 6 THEN [i \in 1..c |-> i - 1] ELSE IF F.n = 3 /\ F.d > 4 THEN <<0, 5, 29>> ELSE [i \in 1..(IF F.n = 3 THEN 2 ELSE 4) |-> IF i = 1 THEN 0 ELSE IF i = 2 THEN c - 1 ELSE Rnd(<<Seed, x, i, 51>>, c)]
JHows(F) == << <<"J", 0>>, <<"JZZ", 0>>, <<"JZZ", 1>>, <<"JZZ", 2>>, <<"JZZp", 0>>, <<"JZZp", 1>>, <<"JZZp", 2>> >>
NDHows(F) == << <<"ND", 0>>, <<"NDZZ", 0>>, <<"NDZZ", 1>>, <<"NDZZ", 2>>, <<"NDZZp", 0>>, <<"NDZZp", 1>>, <<"NDflint", 0>> >>
HowsFor(F, hs) == IF F.p > 60 THEN SelectSeq(hs, LAMBDA h : h[2] = 0) ELSE hs
Fc(F, h, c, N, nth) == [op |-> "frob", id |-> 1, how |-> h[1], loop |-> h[2], coord |-> c, N |-> N]
ColCmds(F, x, c) ==
  LET M == MaxN(F) js == HowsFor(F, JHows(F)) ns == IF F.nd THEN HowsFor(F, NDHows(F)) ELSE <<>> IN
  [j \in 1..M |-> [op |-> "frobvals", id |-> 1, coord |-> c, j |-> j - 1]]
  \o FlattenSeq([t \in 1..Len(Ns(F)) |-> LET N == Ns(F)[t] IN [k \in 1..Len(js) |-> Fc(F, js[k], c, N, 0)] \o [k \in 1..Len(ns) |-> Fc(F, ns[k], c, N, 0)]])
MatN(F, key) == [i \in 1..F.n |-> RndEl(key \o <<i>>, <<0>> \o Ns(F))]
FamI == SelectSeq([i \in 1..NFam |-> i], LAMBDA i : FamList[i][3] < 100000)
Sess(x) == LET F == IF x <= Len(FamI) THEN FamAt(FamI[x]) ELSE MkFam(x + 100, Extra[x - Len(FamI)]) IN
  F @@ [timeout |-> 600, cmds |-> <<CtxCmd(F), [op |-> "new", id |-> 1, kind |-> IF F.nd THEN "hypnd" ELSE "hyp", how |-> "map", p |-> F.p, prec |-> F.k, f |-> F.f], [op |-> "fpow", id |-> 1, power |-> MaxN(F) - 1]>>
     \o FlattenSeq(LET C == Coords(F, x) IN [i \in 1..Len(C) |-> ColCmds(F, x, C[i])])
     \o FlattenSeq([t \in 1..(IF F.n = 3 \/ F.d > 4 THEN 0 ELSE 2) |-> << [op |-> "frobmat", id |-> 1, N |-> MatN(F, <<Seed, x, t, 52>>), nd |-> 0] >> \o (IF F.nd THEN << [op |-> "frobmat", id |-> 1, N |-> MatN(F, <<Seed, x, t, 52>>), nd |-> 1] >> ELSE <<>>)])]
Gen(x) == Sharded(Len(FamI) + Len(Extra), Sess)
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Name(e) == "frob_" \o e.how \o " (loop " \o ToString(e.loop) \o ")"
\* the column for coordinate c and N terms, from the state
Column(sess, a, c, N) == LET q == Qof(sess) m == BasisPole(a.basis[c + 1], sess.n, sess.d) IN
   FrobFinish(sess.n, sess.p, sess.k, q, m, N, FrobSum(sess.n, sess.d, sess.p, q, a.pw, m, N, a.vals, Len(a.basis)))
Prec(sess, a, c, N) == LET m == BasisPole(a.basis[c + 1], sess.n, sess.d) v == ValFact(sess.p * (m + N - 1) - 1, sess.p) IN sess.k - Max2(0, v - (sess.n - 1))
Agree(x, y, p, e) == e <= 0 \/ \A i \in 1..Len(x) : BIsZero(BMod(BSub(x[i], y[i]), BPow(p, e)))
KeyOf(c, N) == 1000 * c + N
Step(sess, a, e) ==
  LET q == Qof(sess) n == sess.n d == sess.d p == sess.p IN
  IF e.op = "frob" THEN
    LET key == KeyOf(e.coord, e.N) known == key \in DOMAIN a.cols
        want == IF known THEN a.cols[key] ELSE Column(sess, a, e.coord, e.N)
        b == IF known THEN a ELSE [a EXCEPT !.cols = (key :> want) @@ @] IN
    IF ~want[1] THEN Bad("specification: the truncated sum is not divisible by the denominator (coordinate " \o ToString(e.coord) \o ", N = " \o ToString(e.N) \o ")")
    ELSE IF "died" \in DOMAIN e THEN Bad(Name(e) \o " did not return: " \o e.died)
    ELSE IF e.res # want[2] THEN Bad(Name(e) \o " is not the truncation of the Frobenius formula")
    \* more terms change the column by a multiple of p^N only
    ELSE IF ~known /\ p >= 2 * n + e.N + 1 /\ \E N2 \in 1..(e.N - 1) : KeyOf(e.coord, N2) \in DOMAIN a.cols /\ ~Agree(a.cols[KeyOf(e.coord, N2)][2], want[2], p, Min2(N2, Min2(Prec(sess, a, e.coord, N2), Prec(sess, a, e.coord, e.N))))
      THEN Bad("the columns do not converge p-adically")
    ELSE Ok(b)
  ELSE IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "new" THEN Ok([a EXCEPT !.basis = e.res.basis, !.pw = Powers(sess.f, n, d, MaxN(sess) - 1, q)])
  ELSE IF e.op = "fpow" THEN
    IF Len(e.res) = e.power + 1 /\ \A j \in 0..e.power : LET P == a.pw[j + 1] G == e.res[j + 1] IN
         (\A k \in 1..Len(G) : P[G[k][1]] = G[k][2]) /\ \A u \in DOMAIN P : BIsZero(P[u]) \/ \E k \in 1..Len(G) : G[k][1] = u
    THEN Ok(a) ELSE Bad("compute_fpow: not the powers of f")
  ELSE IF e.op = "frobvals" THEN
    LET T == Tuples(n + 1, e.j * d) b == a.basis[e.coord + 1] IN
    IF Len(e.us) # Len(T) \/ \E g \in 1..Len(T) : e.us[g] # [i \in 1..(n + 1) |-> p * (T[g][i] + b[i] + 1)] THEN Bad("driver: wrong forms")
    ELSE Ok([a EXCEPT !.vals = IF e.j = 0 THEN <<e.res>> ELSE Append(@, e.res)])
  ELSE IF e.op = "frobmat" THEN
    LET len == Len(a.basis)
        col(c) == LET m == BasisPole(a.basis[c + 1], n, d) IN IF e.N[m] = 0 THEN UnitVec(len, 0, 0, q) ELSE a.cols[KeyOf(c, e.N[m])][2] IN
    IF Len(e.res) = len /\ \A c \in 0..(len - 1) : \A i \in 1..len : e.res[i][c + 1] = col(c)[i] THEN Ok(a) ELSE Bad("frob_matrix: a column is not the column of its basis element")
  ELSE Ok(a)
InitSt(sess) == [basis |-> <<>>, pw |-> <<>>, vals |-> <<>>, cols |-> [x \in {-1} |-> <<TRUE, <<>> >>]]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
