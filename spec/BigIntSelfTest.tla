--------------------------- MODULE BigIntSelfTest ---------------------------
(* The Java overrides (names brought in by EXTENDS) agree with the TLA+ definitions of BigInt.tla (D!..., not overridden) on small arguments. *)
EXTENDS BigInt, TLC
D == INSTANCE BigIntDef   \* a copy of BigInt.tla made by bin/setup, which no override applies to
R == -12..12
ASSUME \A a, b \in R : BInt(BAdd(a, b)) = D!BAdd(a, b) /\ BInt(BSub(a, b)) = D!BSub(a, b) /\ BInt(BMul(a, b)) = D!BMul(a, b) /\ BInt(BNeg(a)) = D!BNeg(a)
ASSUME \A a \in R, b \in 1..12 : BInt(BDiv(a, b)) = D!BDiv(a, b) /\ BInt(BMod(a, b)) = D!BMod(a, b) /\ Red(a, b) = D!Red(a, b)
ASSUME \A a, b \in R : BCmp(a, b) = D!BCmp(a, b) /\ BEq(BStr(a), b) = D!BEq(a, b)
ASSUME \A a \in -6..6, n \in 0..5 : BInt(BPow(a, n)) = D!BPow(a, n) /\ BBits(a) = D!BBits(a)
ASSUME \A a \in 0..10, n \in 0..5, m \in 1..11 : MPow(a, n, m) = D!MPow(a, n, m)
ASSUME \A m \in {2, 3, 5, 7, 11} : \A a \in 1..(m - 1) : MInv(a, m) = D!MInv(a, m)
ASSUME \A a, b, c \in -3..3, m \in 2..5 : MDot(<<a, b>>, <<c, a>>, m) = D!MDot(<<a, b>>, <<c, a>>, m) /\ MMul(a, b, m) = D!MMul(a, b, m) /\ MAdd(a, b, m) = D!MAdd(a, b, m) /\ MSub(a, b, m) = D!MSub(a, b, m)
ASSUME \A a, b, c \in -3..3 : BInt(BDot(<<a, b>>, <<c, a>>)) = D!BDot(<<a, b>>, <<c, a>>) /\ BInt(BSum(<<a, b, c>>)) = D!BSum(<<a, b, c>>) /\ BInt(BDot(<<>>, <<>>)) = 0
ASSUME \A a, b, c, d \in 0..2 : LET M == <<<<a, b>>, <<c, d>>>> N == <<<<d, a>>, <<b, c>>>> IN
   /\ MMatMul(M, N, 3) = D!MMatMul(M, N, 3) /\ MRank(M, 3) = D!MRank(M, 3) /\ MMatVec(M, <<c, b>>, 7) = D!MMatVec(M, <<c, b>>, 7)
   /\ MLin(<<a, b>>, <<<<1, 2, 3>>, <<c, 0, d>>>>, 3, 5) = D!MLin(<<a, b>>, <<<<1, 2, 3>>, <<c, 0, d>>>>, 3, 5)
   /\ \A i, j \in 1..2 : BInt(BMatMul(M, N)[i][j]) = D!BMatMul(M, N)[i][j]
ASSUME \A M \in [1..3 -> [1..3 -> 0..1]] : MRank(M, 2) = D!MRank(M, 2)
ASSUME \A M \in [1..2 -> [1..3 -> 0..2]] : LET X == MRightInv(M, 3, 9) Y == MRightInv(M, 3, "3486784401") IN
   IF D!MRank(M, 3) = 2 THEN /\ D!MMatMul(M, X, 9) = <<<<1, 0>>, <<0, 1>>>> /\ MMatMul(M, Y, "3486784401") = <<<<"1", "0">>, <<"0", "1">>>> ELSE X = <<>> /\ Y = <<>>
ASSUME BMul("123456789012345678901234567890", "-10") = "-1234567890123456789012345678900"
ASSUME MMul("123456789012345678901234567890", "987654321", "1000000007000000000000") = BMod(BMul("123456789012345678901234567890", "987654321"), "1000000007000000000000")
=============================================================================
