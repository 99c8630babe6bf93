-------------------------------- MODULE K06 --------------------------------
(***************************************************************************)
(* default_args: for every supported (n,d) and prime p not dividing d       *)
(*  - one N per pole order, one precision per coefficient;                  *)
(*  - the precisions determine the Weil polynomial (Weil.Sufficient);       *)
(*  - for p >= 2n + max(r): the working precision covers the loss in the    *)
(*    Frobenius formula, and the relative precisions N gives to the Hodge   *)
(*    pieces give every coefficient its stated precision;                   *)
(*  - for smaller p: not below the published values;                        *)
(*  - everything else is rejected.                                          *)
(***************************************************************************)
EXTENDS HodgeNum, PrecTable
Supported == { <<2, d>> : d \in 3..9 } \cup { <<3, d>> : d \in 4..6 }
CheckRow(n, d, p, e) ==
  LET N == e.N cp == e.cp w == e.precision deg == DimPrim(n, d) IN
  IF Len(N) # n \/ \E i \in 1..Len(N) : N[i] < 0 THEN "N does not have one entry per pole order"
  ELSE IF Len(cp) # deg + 1 THEN "there is not one precision per coefficient"
  ELSE IF w < 1 THEN "the working precision is not positive"
  ELSE IF ~Sufficient(cp, p, n - 1) THEN "the precisions do not determine the Weil polynomial"
  ELSE LET r == RelPrec(N, n) IN
       IF p >= 2 * n + SeqMax(r)
       THEN IF w < NeedWork(N, n, p) THEN "the working precision does not cover the loss in the Frobenius formula"
            ELSE IF \E k \in 1..(deg - 1) : CoefPrec(n, d, [i \in 1..n |-> Max2(N[i], n - i)], k) < cp[deg - k + 1] THEN "the number of terms N does not give a coefficient its stated precision"
            ELSE "ok"
       ELSE LET g == SelectSeq(SmallRows, LAMBDA x : x.n = n /\ x.d = d /\ x.p = p) IN
            IF Len(g) = 0 THEN "no published value for this prime: N leaves the published range"
            ELSE IF w < g[1].precision \/ (\E i \in 1..n : N[i] < g[1].N[i]) \/ (\E i \in 2..deg : cp[i] > g[1].cp[i]) THEN "less accuracy than the published table" ELSE "ok"
Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 127, 499, 32003, 65537, 1000003>>
Nd == <<<<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 7>>, <<2, 8>>, <<2, 9>>, <<3, 4>>, <<3, 5>>, <<3, 6>>>>
Good == FlattenSeq([i \in 1..Len(Nd) |-> FlattenSeq([j \in 1..Len(Primes) |-> IF Nd[i][2] % Primes[j] = 0 THEN <<>>
          ELSE << [n |-> Nd[i][1], d |-> Nd[i][2], p |-> Primes[j], cmds |-> << [op |-> "default_args", n |-> Nd[i][1], d |-> Nd[i][2], p |-> Primes[j]] @@ (IF j % 2 = 0 THEN [dirty |-> TRUE] ELSE <<>>) >>] >>])])
BadNd == <<<<1, 3>>, <<1, 4>>, <<2, 2>>, <<2, 1>>, <<2, 10>>, <<2, 12>>, <<3, 3>>, <<3, 7>>, <<3, 8>>, <<4, 5>>, <<4, 6>>, <<5, 6>>, <<3, 2>>, <<4, 3>>, <<0, 3>>, <<9, 2>>>>
Reject == FlattenSeq([i \in 1..Len(BadNd) |-> [j \in 1..2 |-> [n |-> BadNd[i][1], d |-> BadNd[i][2], p |-> <<5, 23>>[j], cmds |-> << [op |-> "default_args", n |-> BadNd[i][1], d |-> BadNd[i][2], p |-> <<5, 23>>[j]] >>]]])
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Good \o Reject)
ASSUME Mode = "model" => /\ Hodge(2, 3) = <<1, 1>> /\ Hodge(2, 5) = <<6, 6>> /\ Hodge(3, 4) = <<1, 19, 1>> /\ Hodge(3, 5) = <<4, 44, 4>>
                         /\ \A nd \in Supported : FoldSeq(LAMBDA a, b : a + b, 0, Hodge(nd[1], nd[2])) = DimPrim(nd[1], nd[2])
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF <<e.n, e.d>> \in Supported
  THEN IF "died" \in DOMAIN e THEN Bad("a supported (n,d) is rejected: " \o e.died)
       ELSE LET w == CheckRow(e.n, e.d, e.p, e.res) IN IF w = "ok" THEN Ok(a) ELSE Bad(w)
  ELSE IF "died" \in DOMAIN e THEN (IF e.died = "abort" THEN Ok(a) ELSE Bad("not a clean rejection: " \o e.died)) ELSE Bad("an unsupported (n,d) is answered")
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
