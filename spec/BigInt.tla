------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers beyond TLC's 32 bits.  A "big integer" is a TLA+ integer or    *)
(* the string of its decimal digits.  The B* operators compute over Z and  *)
(* return decimal strings; the M* operators compute modulo m and return    *)
(* integers when m is an integer and decimal strings when m is a string.   *)
(*                                                                         *)
(* The definitions below are the meaning of the operators on TLA+ integers;*)
(* java/BigInt.java evaluates them for arguments of any size (a TLC module *)
(* override, like the ones TLC uses for Naturals).  BigIntSelfTest.tla     *)
(* compares the override with these definitions on small arguments.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE BgSumTo(_, _, _)
BgSumTo(f(_), i, acc) == IF i = 0 THEN acc ELSE BgSumTo(f, i - 1, acc + f(i))
RECURSIVE BgPowI(_, _)
BgPowI(a, n) == IF n = 0 THEN 1 ELSE a * BgPowI(a, n - 1)

BAdd(a, b) == a + b
BSub(a, b) == a - b
BMul(a, b) == a * b
BNeg(a) == -a
BDiv(a, b) == a \div b
BMod(a, b) == a % b
BPow(a, n) == BgPowI(a, n)
BCmp(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
BEq(a, b) == a = b
BStr(a) == a
BIsInt(a) == a \in Int
BInt(a) == a
BBits(a) == LET aa == IF a < 0 THEN -a ELSE a IN CHOOSE n \in 0..31 : BgPowI(2, n) > aa /\ (n = 0 \/ BgPowI(2, n - 1) <= aa)
BSum(v) == BgSumTo(LAMBDA i : v[i], Len(v), 0)
BDot(u, v) == BgSumTo(LAMBDA i : u[i] * v[i], Len(u), 0)

Red(a, m) == a % m
MAdd(a, b, m) == (a + b) % m
MSub(a, b, m) == (a - b) % m
MMul(a, b, m) == (a * b) % m
MInv(a, m) == CHOOSE x \in 0..(m - 1) : (a * x) % m = 1 % m
MPow(a, n, m) == BgPowI(a, n) % m
MDot(u, v, m) == BgSumTo(LAMBDA i : u[i] * v[i], Len(u), 0) % m
MLin(cs, vs, len, m) == [j \in 1..len |-> BgSumTo(LAMBDA i : cs[i] * vs[i][j], Len(cs), 0) % m]
MMatVec(A, v, m) == [i \in 1..Len(A) |-> MDot(A[i], v, m)]
MMatMul(A, B, m) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> BgSumTo(LAMBDA t : A[i][t] * B[t][j], Len(B), 0) % m]]
BMatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> BgSumTo(LAMBDA t : A[i][t] * B[t][j], Len(B), 0)]]
\* rank over the field with m elements (m prime): the largest number of rows of A with no non-trivial relation
MRank(A, m) ==
  LET n == Len(A)
      Rel(I) == \E c \in [I -> 0..(m - 1)] :
                   /\ \E i \in I : c[i] # 0
                   /\ \A j \in 1..Len(A[1]) : BgSumTo(LAMBDA i : IF i \in I THEN c[i] * A[i][j] ELSE 0, n, 0) % m = 0
      Card(S) == BgSumTo(LAMBDA i : IF i \in S THEN 1 ELSE 0, n, 0)
  IN IF n = 0 THEN 0 ELSE CHOOSE r \in 0..n : /\ \E I \in SUBSET (1..n) : Card(I) = r /\ ~Rel(I)
                                              /\ \A I \in SUBSET (1..n) : Card(I) = r + 1 => Rel(I)

\* a right inverse modulo q = p^k of a matrix of full row rank modulo p; << >> when the rank is smaller.  Which one is not specified.
MRightInv(A, p, q) ==
  IF A = <<>> \/ MRank(A, p) # Len(A) THEN <<>>
  ELSE CHOOSE X \in [1..Len(A[1]) -> [1..Len(A) -> 0..(q - 1)]] : MMatMul(A, X, q) = [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN 1 % q ELSE 0]]

\* derived
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BIsZero(a) == BEq(a, 0)
BAbs(a) == IF BCmp(a, 0) < 0 THEN BNeg(a) ELSE BStr(a)
BProd(v) == LET RECURSIVE P(_, _) P(i, acc) == IF i > Len(v) THEN acc ELSE P(i + 1, BMul(acc, v[i])) IN P(1, BStr(1))
=============================================================================
