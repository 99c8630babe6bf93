-------------------------------- MODULE K11 --------------------------------
(* Matrix and vector kernels: the mathematically defined products. *)
EXTENDS Big
Bits == <<1, 8, 30, 31, 32, 61, 62, 63, 64, 65, 128, 300>>
RndI(key) == IF Rnd(key \o <<1>>, 5) = 0 THEN BStr(Rnd(key \o <<2>>, 3) - 1) ELSE RndInt(key \o <<3>>, RndEl(key \o <<4>>, Bits))
MkM(r, c, F(_, _)) == [r |-> r, c |-> c, m |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
Mods == << <<2, 1>>, <<7, 1>>, <<101, 1>>, <<46337, 1>>, <<5, 20>>, <<2, 64>>, <<3, 41>>, <<23, 30>> >>
NMods == <<"2", "7", "46337", "2147483647", "2147483648", "4294967296", "4294967311", "9223372036854775783", "9223372036854775808", "9223372036854775837", "18446744073709551557", "18446744073709551615">>
\* long vectors and rows: only the kernels whose cost is linear in the length
Long(k) == LET mo == Mods[1 + (k % Len(Mods))] q == BPow(mo[1], mo[2]) IN
  [q |-> q, p |-> mo[1], cmds |-> << [op |-> "ctx", p |-> mo[1], prec |-> mo[2]] >> \o FlattenSeq([t \in 1..5 |->
     LET key == <<Seed, 6, k, t>> n == RndEl(key, <<7, 8, 15, 16, 17, 31, 32, 33, 48, 64, 65, 100, 130>>) A == MkM(2, n, LAMBDA i, j : RndI(key \o <<1, i, j>>)) v == [j \in 1..n |-> RndI(key \o <<3, j>>)] w == [j \in 1..n |-> RndI(key \o <<4, j>>)]
         nm == RndEl(key \o <<6>>, NMods) top == Rnd(key \o <<7>>, 3) = 0 R(kk) == IF top THEN BSub(nm, 1) ELSE RndRes(kk, BStr(nm)) NA == MkM(3, n, LAMBDA i, j : R(key \o <<1, i, j>>)) NB == MkM(3, n, LAMBDA i, j : R(key \o <<2, i, j>>)) nv == [j \in 1..n |-> R(key \o <<3, j>>)]
         Bt == MkM(3, n, LAMBDA i, j : RndI(key \o <<2, i, j>>)) B == MkM(n, 3, LAMBDA i, j : Bt.m[j][i])
     IN << [op |-> "mpz_mul", a |-> A, b |-> B], [op |-> "mpz_mul_transpose", a |-> A, b |-> B], [op |-> "mpz_matvec", a |-> A, v |-> v], [op |-> "mpz_scalvec", v |-> v, s |-> RndI(key \o <<5>>)], [op |-> "mpz_dot", v |-> v, w |-> w], [op |-> "mpz_addvec", v |-> v, w |-> w],
           [op |-> "fmpz_matvec", a |-> A, v |-> v], [op |-> "fmpz_dot", v |-> v, w |-> w], [op |-> "nmod_matvec", mod |-> nm, a |-> NA, v |-> nv], [op |-> "nmod_sub", mod |-> nm, a |-> NA, b |-> NB],
           [op |-> "mul_transpose", ring |-> "ZZ", a |-> A, b |-> Bt], [op |-> "mul_transpose", ring |-> "ZZ_p", a |-> A, b |-> Bt], [op |-> "transpose_mul_transpose", ring |-> "zz_p", a |-> A, b |-> Bt], [op |-> "transpose_mul_transpose", ring |-> "ZZ", a |-> A, b |-> Bt] >>])]
Trip(key, t) == LET z(i) == 1 + Rnd(key \o <<i>>, 6) IN IF t = 0 THEN <<z(1), z(2), z(3)>> ELSE <<z(1), z(1), z(1)>>
Sess(k) == LET mo == Mods[1 + (k % Len(Mods))] q == BPow(mo[1], mo[2]) IN
  [q |-> q, p |-> mo[1], cmds |-> << [op |-> "ctx", p |-> mo[1], prec |-> mo[2]] >> \o FlattenSeq([t \in 1..4 |->
     LET key == <<Seed, k, t>> d == Trip(key \o <<8>>, Rnd(key \o <<7>>, 3)) 
         A == MkM(d[1], d[2], LAMBDA i, j : RndI(key \o <<1, i, j>>)) B == MkM(d[2], d[3], LAMBDA i, j : RndI(key \o <<2, i, j>>)) Bt == MkM(d[3], d[2], LAMBDA i, j : B.m[j][i])
         v == [j \in 1..d[2] |-> RndI(key \o <<3, j>>)] w == [j \in 1..d[2] |-> RndI(key \o <<4, j>>)] sc == RndI(key \o <<5>>)
         nm == RndEl(key \o <<6>>, NMods) R(kk) == RndRes(kk, BStr(nm))
         NA == MkM(d[1], d[2], LAMBDA i, j : IF Rnd(key \o <<i, j, 1>>, 4) = 0 THEN BSub(nm, 1) ELSE R(key \o <<1, i, j>>)) NB == MkM(d[1], d[2], LAMBDA i, j : R(key \o <<2, i, j>>)) nv == [j \in 1..d[2] |-> IF Rnd(key \o <<j, 2>>, 3) = 0 THEN BSub(nm, 1) ELSE R(key \o <<3, j>>)]
     IN << [op |-> "mpz_mul", a |-> A, b |-> B], [op |-> "mpz_mul_transpose", a |-> A, b |-> B], [op |-> "mpz_scal", a |-> A, s |-> sc], [op |-> "mpz_matvec", a |-> A, v |-> v], [op |-> "mpz_scalvec", v |-> v, s |-> sc],
           [op |-> "mpz_dot", v |-> v, w |-> w], [op |-> "mpz_addvec", v |-> v, w |-> w], [op |-> "fmpz_matvec", a |-> A, v |-> v], [op |-> "fmpz_dot", v |-> v, w |-> w],
           [op |-> "nmod_matvec", mod |-> nm, a |-> NA, v |-> nv], [op |-> "nmod_sub", mod |-> nm, a |-> NA, b |-> NB],
           [op |-> "mul_transpose", ring |-> "ZZ", a |-> A, b |-> Bt], [op |-> "mul_transpose", ring |-> "ZZ_p", a |-> A, b |-> Bt], [op |-> "mul_transpose", ring |-> "zz_p", a |-> A, b |-> Bt],
           [op |-> "transpose_mul_transpose", ring |-> "ZZ", a |-> A, b |-> Bt], [op |-> "transpose_mul_transpose", ring |-> "ZZ_p", a |-> A, b |-> Bt], [op |-> "transpose_mul_transpose", ring |-> "zz_p", a |-> A, b |-> Bt] >>])]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, [k \in 1..Pick(24, 240) |-> Long(k)] \o [k \in 1..Pick(80, 2000) |-> Sess(k)])
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
SameM(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : BEq(A[i][j], B[i][j])
SameV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : BEq(a[i], b[i])
Tr(M, r, c) == [j \in 1..c |-> [i \in 1..r |-> M[i][j]]]
RedM(M, q) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> BMod(M[i][j], q)]]
MatV(A, v) == [i \in 1..Len(A) |-> BDot(A[i], v)]
Guard(e, good) == IF ~e.res.guard THEN e.op \o ": memory outside the result was written" ELSE IF good THEN "ok" ELSE e.op \o " is not the documented product"
Plain(e, good) == IF good THEN "ok" ELSE e.op \o " is not the documented product"
Ring(s0, e, M) == IF e.ring = "ZZ" THEN BStrM(M) ELSE RedM(M, IF e.ring = "zz_p" THEN s0.p ELSE s0.q)
Judge(s0, e) ==
  CASE e.op = "ctx" -> "ok"
    [] e.op \in {"mpz_mul", "mpz_mul_transpose"} -> Guard(e, SameM(e.res.m, BMatMul(e.a.m, e.b.m)))
    [] e.op = "mpz_scal" -> Guard(e, SameM(e.res.m, [i \in 1..e.a.r |-> [j \in 1..e.a.c |-> BMul(e.s, e.a.m[i][j])]]))
    [] e.op = "mpz_matvec" -> Guard(e, SameV(e.res.m, MatV(e.a.m, e.v)))
    [] e.op = "mpz_scalvec" -> Guard(e, SameV(e.res.m, [i \in 1..Len(e.v) |-> BMul(e.s, e.v[i])]))
    [] e.op = "mpz_dot" -> Guard(e, SameV(e.res.m, <<BDot(e.v, e.w)>>))
    [] e.op = "mpz_addvec" -> Guard(e, LET x == [i \in 1..Len(e.v) |-> BAdd(e.v[i], e.w[i])] IN SameV(e.res.m, x) /\ SameV(e.res.al, x))
    [] e.op = "fmpz_matvec" -> Plain(e, SameV(e.res, Append(MatV(e.a.m, e.v), 99)))
    [] e.op = "fmpz_dot" -> Plain(e, BEq(e.res, BDot(e.v, e.w)))
    [] e.op = "nmod_matvec" -> Plain(e, SameV(e.res, Append([i \in 1..e.a.r |-> BMod(BDot(e.a.m[i], e.v), e.mod)], 12345)) \/ SameV(e.res, [i \in 1..e.a.r |-> BMod(BDot(e.a.m[i], e.v), e.mod)]))
    [] e.op = "nmod_sub" -> Plain(e, e.same /\ SameM(e.res, [i \in 1..e.a.r |-> [j \in 1..e.a.c |-> BMod(BSub(e.a.m[i][j], e.b.m[i][j]), e.mod)]]))
    [] e.op = "mul_transpose" -> LET P == BMatMul(e.a.m, Tr(e.b.m, e.b.r, e.b.c)) IN Plain(e, e.res.r = e.a.r /\ e.res.c = e.b.r /\ SameM(e.res.m, Ring(s0, e, P)))
    [] e.op = "transpose_mul_transpose" -> LET P == BMatMul(e.a.m, Tr(e.b.m, e.b.r, e.b.c)) IN Plain(e, e.res.r = e.b.r /\ e.res.c = e.a.r /\ SameM(e.res.m, Ring(s0, e, Tr(P, e.a.r, e.b.r))))
    [] OTHER -> "unknown operation"
Step(sess, a, e) == IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died) ELSE LET w == Judge(sess, e) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
