-------------------------------- MODULE K03 --------------------------------
(* charpoly and trace: the coefficients of det(T - M), constant term first. *)
EXTENDS Big
CharPoly(M) == IF Len(M) <= 4 THEN CharPolyDef(M) ELSE CharPolyFL(M)
\* the two definitions of the specification agree
ASSUME Mode = "model" => \A a, b, c, d \in -2..2 : CharPolyDef(<<<<a, b>>, <<c, d>>>>) = CharPolyFL(<<<<a, b>>, <<c, d>>>>) /\ CharPolyDef(<<<<a, b>>, <<c, d>>>>) = <<BStr(a * d - b * c), BStr(-a - d), "1">>
ASSUME Mode = "model" => \A k \in 1..60 : LET n == 1 + (k % 5) M == [i \in 1..n |-> [j \in 1..n |-> RndInt(<<k, i, j>>, 1 + (k % 40))]] IN CharPolyDef(M) = CharPolyFL(M)
RandMat(key, n, bits, kind) ==
  [i \in 1..n |-> [j \in 1..n |->
     IF kind = 1 /\ Rnd(key \o <<i, j, 1>>, 3) # 0 THEN "0"                         \* sparse
     ELSE IF kind = 2 /\ j # n /\ j # i - 1 THEN "0" ELSE IF kind = 2 /\ j = i - 1 THEN "1"   \* companion
     ELSE IF kind = 3 /\ j < i THEN "0"                                            \* triangular
     ELSE IF kind = 4 /\ j <= i THEN "0"                                           \* nilpotent
     ELSE IF kind = 5 THEN RndInt(key \o <<Min2(i, j), Max2(i, j), 2>>, bits)         \* symmetric
     ELSE RndInt(key \o <<i, j, 2>>, bits)]]
Bits == <<1, 2, 5, 16, 31, 32, 33, 62, 63, 64, 65, 130, 300>>
Mk(M) == [r |-> Len(M), c |-> Len(M), m |-> M]
Small2 == LET q == SetToSeq([1..4 -> -1..1]) IN [k \in 1..Len(q) |-> <<<<BStr(q[k][1]), BStr(q[k][2])>>, <<BStr(q[k][3]), BStr(q[k][4])>>>>]
Bin3(x) == LET q == SetToSeq([1..9 -> 0..1]) IN [k \in 1..Len(q) |-> [i \in 1..3 |-> [j \in 1..3 |-> BStr(q[k][3 * (i - 1) + j])]]]
MatSession(Ms) == [cmds |-> FlattenSeq([k \in 1..Len(Ms) |-> << [op |-> "charpoly", m |-> Mk(Ms[k])], [op |-> "trace", m |-> Mk(Ms[k])] >>])]
Chunks(q, size) == [c \in 1..((Len(q) + size - 1) \div size) |-> SubSeq(q, (c - 1) * size + 1, Min2(c * size, Len(q)))]
Gen(x) == LET ch == Chunks(Small2 \o Bin3(0), 40) IN
          [c \in 1..Len(ch) |-> MatSession(ch[c])] \o
          [k \in 1..Pick(60, 600) |-> MatSession([t \in 1..6 |-> RandMat(<<Seed, k, t>>, Rnd(<<Seed, k, t, 1>>, IF k % 12 = 0 /\ t <= 2 THEN 26 ELSE Pick(9, 22)), Bits[1 + Rnd(<<Seed, k, t, 2>>, Len(Bits))], Rnd(<<Seed, k, t, 3>>, 7))])]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "charpoly" THEN IF e.res = CharPoly(e.m.m) THEN Ok(a) ELSE Bad("charpoly is not det(T - M)")
  ELSE IF e.res = TraceM(e.m.m) THEN Ok(a) ELSE Bad("trace is not the sum of the diagonal")
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
