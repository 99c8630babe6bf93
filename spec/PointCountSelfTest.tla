------------------------- MODULE PointCountSelfTest -------------------------
EXTENDS PointCount
D == INSTANCE PointCountDef   \* a copy without override
Poly(key, n, d, p, dense) == LET T == Tuples(n + 1, d) IN [j \in 1..Len(T) |-> <<T[j], IF Rnd(key \o <<j, 7>>, 4) < dense THEN Rnd(key \o <<j>>, 2 * p) - (p \div 2) ELSE 0>>]
Fields == << <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<5, 1>>, <<7, 1>>, <<5, 2>>, <<13, 1>> >>
Shapes == << <<1, 3>>, <<1, 5>>, <<2, 3>>, <<2, 2>>, <<3, 2>>, <<2, 4>> >>
Case(i, j, k) == LET F == Fields[i] S == Shapes[j] IN
   PowInt(F[1], F[2] * S[1]) > 1000 \/ LET f == Poly(<<1, i, j, k>>, S[1], S[2], F[1], 1 + (k % 4)) IN
     PCount(f, S[1], F[1], F[2]) = D!PCount(f, S[1], F[1], F[2]) \/ Assert(FALSE, <<i, j, k, f>>)
ASSUME \A i \in 1..Len(Fields), j \in 1..Len(Shapes), k \in 1..4 : Case(i, j, k)
\* larger fields: a smooth conic has q + 1 points, a quadric surface with square discriminant (q + 1)^2, the line x y = 0 in P^2 2 q + 1, a cubic curve x^3 = y^2 z has q + 1
Conic == << <<<<2, 0, 0>>, 1>>, <<<<0, 1, 1>>, 1>> >>
Quadric == << <<<<1, 1, 0, 0>>, 1>>, <<<<0, 0, 1, 1>>, -1>> >>
Pair == << <<<<1, 1, 0>>, 3>> >>
Cusp == << <<<<3, 0, 0>>, 1>>, <<<<0, 2, 1>>, -1>> >>
ASSUME \A F \in {<<2, 6>>, <<5, 3>>, <<7, 2>>, <<101, 1>>, <<11, 3>>, <<499, 1>>, <<43, 2>>, <<17, 3>>} : LET q == PowInt(F[1], F[2]) IN
   PCount(Conic, 2, F[1], F[2]) = q + 1 /\ (q < 200 => PCount(Quadric, 3, F[1], F[2]) = (q + 1) * (q + 1)) /\ PCount(Pair, 2, F[1], F[2]) = 2 * q + 1 /\ PCount(Cusp, 2, F[1], F[2]) = q + 1
=============================================================================
