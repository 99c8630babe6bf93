-------------------------------- MODULE K10 --------------------------------
(* Conversions between NTL, GMP and FLINT are the identity on values and positions. *)
EXTENDS Big
Bits == <<1, 8, 16, 30, 31, 32, 33, 61, 62, 63, 64, 65, 128, 300>>
Edge == <<"0", "1", "-1", "4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
          "18446744073709551615", "18446744073709551616", "-18446744073709551616", "255", "256", "-255", "-256", "65535", "65536", "2147483647", "2147483648", "-2147483648", "340282366920938463463374607431768211456">>
RndI(key) == IF Rnd(key \o <<1>>, 4) = 0 THEN RndEl(key \o <<2>>, Edge) ELSE RndInt(key \o <<3>>, RndEl(key \o <<4>>, Bits))
MkM(r, c, F(_, _)) == [r |-> r, c |-> c, m |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
Mods == << <<2, 1>>, <<7, 1>>, <<101, 1>>, <<46337, 1>>, <<5, 20>>, <<2, 64>>, <<3, 40>>, <<3, 41>>, <<23, 30>>, <<2, 31>> >>
Shape(key) == IF Rnd(key, 3) = 0 THEN LET n == 1 + Rnd(key \o <<1>>, 5) IN <<n, n>> ELSE <<1 + Rnd(key \o <<2>>, 7), 1 + Rnd(key \o <<3>>, 7)>>
MS(k) == LET mo == Mods[1 + (k % Len(Mods))] q == BPow(mo[1], mo[2]) IN
  [p |-> mo[1], q |-> q, cmds |-> << [op |-> "ctx", p |-> mo[1], prec |-> mo[2]] >> \o FlattenSeq([t \in 1..6 |->
     LET key == <<Seed, k, t>> s == Shape(key \o <<9>>) M == MkM(s[1], s[2], LAMBDA i, j : RndI(key \o <<i, j>>))
         S == MkM(s[1], s[2], LAMBDA i, j : IF Rnd(key \o <<i, j, 5>>, 3) = 0 THEN 0 ELSE Rnd(key \o <<i, j, 6>>, mo[1]))
     IN << [op |-> "conv_mat_mpz", m |-> M], [op |-> "conv_mat_fmpz", m |-> M], [op |-> "conv_vec_fmpz", v |-> M.m[1]], [op |-> "conv_nmod", m |-> S], [op |-> "conv_int", x |-> RndI(key \o <<7>>)] >>])]
NMods == <<"2", "7", "46337", "2147483647", "2147483648", "4294967296", "4294967311", "9223372036854775783", "9223372036854775808", "9223372036854775837", "18446744073709551557", "18446744073709551615">>
\* larger matrices, and word-size residues up to 2^64 - 1
Big2(k) == LET mo == Mods[1 + (k % Len(Mods))] q == BPow(mo[1], mo[2]) IN
  [p |-> mo[1], q |-> q, cmds |-> << [op |-> "ctx", p |-> mo[1], prec |-> mo[2]] >> \o FlattenSeq([t \in 1..3 |->
     LET key == <<Seed, 5, k, t>> n == RndEl(key, <<1, 8, 15, 16, 17, 24, 33, 64, 70>>) sh == <<<<n, 1>>, <<1, n>>, <<Min2(n, 24), 17>>>>[t] M == MkM(sh[1], sh[2], LAMBDA i, j : RndI(key \o <<i, j>>))
         S == MkM(sh[1], sh[2], LAMBDA i, j : Rnd(key \o <<i, j, 6>>, mo[1])) nm == RndEl(key \o <<8>>, NMods) W == MkM(sh[1], sh[2], LAMBDA i, j : IF Rnd(key \o <<i, j, 7>>, 4) = 0 THEN BSub(nm, 1) ELSE RndRes(key \o <<i, j, 8>>, BStr(nm)))
     IN << [op |-> "conv_mat_mpz", m |-> M], [op |-> "conv_mat_fmpz", m |-> M], [op |-> "conv_vec_fmpz", v |-> M.m[1]], [op |-> "conv_nmod", m |-> S], [op |-> "conv_nmod_ZZ", mod |-> nm, m |-> W] >>])]
Edges == [p |-> 7, q |-> "7", cmds |-> << [op |-> "ctx", p |-> 7, prec |-> 1] >> \o [i \in 1..Len(Edge) |-> [op |-> "conv_int", x |-> Edge[i]]] \o << [op |-> "conv_mat_mpz", m |-> [r |-> 0, c |-> 0, m |-> <<>>]], [op |-> "conv_vec_fmpz", v |-> <<>>] >>]
\* all shapes up to 4x4 with distinguishable entries
Shapes == [p |-> 1009, q |-> "1009", cmds |-> << [op |-> "ctx", p |-> 1009, prec |-> 1] >> \o FlattenSeq([r \in 1..4 |-> FlattenSeq([c \in 1..4 |-> LET M == MkM(r, c, LAMBDA i, j : 10 * i + j) IN
       << [op |-> "conv_mat_mpz", m |-> M], [op |-> "conv_mat_fmpz", m |-> M], [op |-> "conv_nmod", m |-> M] >>])])]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, <<Edges, Shapes>> \o [k \in 1..Pick(10, 100) |-> Big2(k)] \o [k \in 1..Pick(60, 1500) |-> MS(k)])
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
SameM(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : BEq(A[i][j], B[i][j])
SameV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : BEq(a[i], b[i])
Back(m, b) == b.r = m.r /\ b.c = m.c /\ SameM(m.m, b.m)
RedM(M, q) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> BMod(M[i][j], q)]]
RedV(v, q) == [i \in 1..Len(v) |-> BMod(v[i], q)]
Judge(s0, e) ==
  CASE e.op = "ctx" -> "ok"
    [] e.op = "conv_int" -> IF SameV(e.res, <<e.x, e.x, e.x, e.x>>) THEN "ok" ELSE "an integer changes when converted"
    [] e.op = "conv_mat_mpz" -> IF ~SameV(e.res.flat, FlattenSeq(e.m.m)) THEN "an entry of the GMP array is not the matrix entry at its position"
                                ELSE IF ~e.res.guard THEN "the GMP array was written beyond rows*cols" ELSE IF ~Back(e.m, e.res.back) THEN "GMP array to matrix does not give the original" ELSE "ok"
    [] e.op = "conv_mat_fmpz" -> IF ~SameM(e.res.entries, e.m.m) \/ ~Back(e.m, e.res.back) THEN "FLINT matrix conversion does not round-trip"
                                 ELSE IF ~SameM(e.res.resid, RedM(e.m.m, s0.q)) \/ ~SameM(e.res.red, RedM(e.m.m, s0.q)) THEN "conversion between residues and FLINT integers is not reduction" ELSE "ok"
    [] e.op = "conv_vec_fmpz" -> IF ~SameV(e.res.entries, Append(e.v, 4242)) THEN "FLINT vector entries differ" ELSE IF ~SameV(e.res.back, e.v) THEN "FLINT vector conversion does not round-trip"
                                 ELSE IF ~SameV(e.res.red, RedV(e.v, s0.q)) THEN "conversion of a FLINT vector to residues is not reduction" ELSE "ok"
    [] e.op = "conv_nmod_ZZ" -> IF ~Back(e.m, e.res.Z) THEN "word-size residues change when converted to integers" ELSE IF ~Back([r |-> e.m.r, c |-> e.m.c, m |-> RedM(e.m.m, s0.q)], e.res.P) THEN "word-size residues converted to another ring are not reduced" ELSE "ok"
    [] e.op = "conv_nmod" -> LET S == RedM(e.m.m, s0.p) IN IF ~SameM(e.res.entries, S) \/ ~SameM(e.res.back.m, S) \/ e.res.back.r # e.m.r \/ e.res.back.c # e.m.c \/ ~SameM(e.res.fromZZp, S) THEN "word-size residue conversion does not round-trip" ELSE "ok"
    [] OTHER -> "unknown operation"
Step(sess, a, e) == IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died) ELSE LET w == Judge(sess, e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
