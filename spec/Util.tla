-------------------------------- MODULE Util --------------------------------
(* Small helpers: pseudo-random choice from a seed, sequences, exponent vectors. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, IOUtils, SequencesExt, FiniteSetsExt, Functions, Folds, Json

LOCAL Lcg(x) == LET t == 16807 * (x % 127773) - 2836 * (x \div 127773) IN IF t <= 0 THEN t + 2147483647 ELSE t
LOCAL Mix(x) == LET h == Lcg(x) g == h ^^ (h \div 65536) IN IF g = 0 THEN 1 ELSE g
\* Rnd(key, m): a number in 0..m-1 determined by the sequence of naturals key
Rnd(key, m) == FoldLeft(LAMBDA h, k : Mix(1 + (Mix(h) % 1000000007) + 7919 * (k % 100000) + 13), 12345, key) % m
RndEl(key, q) == q[1 + Rnd(key, Len(q))]
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) % 100000 ELSE 1
Tier == IF "VERIF_TIER" \in DOMAIN IOEnv THEN IOEnv.VERIF_TIER ELSE "quick"
Thorough == Tier = "thorough"
Mode == IF "MODE" \in DOMAIN IOEnv THEN IOEnv.MODE ELSE "none"
\* the recorded sessions (a constant of the root module, so that TLC reads the file once)
Sessions == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
\* a generator may be split over several TLC processes: the sessions F(1..n) that are this process's share
NShards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Sharded(n, F(_)) == LET I == SelectSeq([i \in 1..n |-> i], LAMBDA i : i % NShards = Shard) IN [k \in 1..Len(I) |-> F(I[k])]
Pick(q, t) == IF Thorough THEN t ELSE q

SeqMax(v) == FoldSeq(LAMBDA a, b : IF a > b THEN a ELSE b, v[1], v)
SeqMin(v) == FoldSeq(LAMBDA a, b : IF a < b THEN a ELSE b, v[1], v)
SumSeq(v) == FoldSeq(LAMBDA a, b : a + b, 0, v)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE PowInt(_, _)
PowInt(a, n) == IF n = 0 THEN 1 ELSE a * PowInt(a, n - 1)
MapSeq(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
ConcatAll(qq) == FlattenSeq(qq)
Range1(f) == {f[i] : i \in DOMAIN f}
IsNat32(x) == x \in 0..2147483647
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScal(c, a) == [i \in 1..Len(a) |-> c * a[i]]
Unit(len, i) == [j \in 1..len |-> IF j = i THEN 1 ELSE 0]
ConstV(len, c) == [j \in 1..len |-> c]

\* all exponent vectors with len entries and sum d, in increasing lexicographic order
RECURSIVE Tuples(_, _)
Tuples(len, d) == IF len = 1 THEN << <<d>> >>
                  ELSE FlattenSeq([k \in 1..(d + 1) |-> LET T == Tuples(len - 1, d - (k - 1)) IN [j \in 1..Len(T) |-> <<k - 1>> \o T[j]]])
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
BinomI(n, k) == IF k < 0 \/ k > n THEN 0 ELSE LET RECURSIVE B(_, _) B(i, acc) == IF i > k THEN acc ELSE B(i + 1, (acc * (n - k + i)) \div i) IN B(1, 1)
=============================================================================
