-------------------------------- MODULE Big --------------------------------
(* Derived arithmetic on integers and residues of any size (see BigInt). *)
EXTENDS Util, BigInt
\* p^k as a modulus: a TLA+ integer when native products fit, a decimal string otherwise
ModPow(p, k) == LET q == BPow(p, k) IN IF BCmp(q, 46339) <= 0 THEN BInt(q) ELSE q
\* a pseudo-random residue modulo q (int or string), and a signed integer of about `bits` bits
RndRes(key, q) == IF BIsInt(q) THEN Rnd(key, q)
                  ELSE LET w == 1 + BBits(q) \div 30 IN
                       Red(FoldLeft(LAMBDA a, i : BAdd(BMul(a, 1073741824), Rnd(key \o <<i, 77>>, 1073741824)), "0", [i \in 1..w |-> i]), q)
RndInt(key, bits) == LET x == RndRes(key, BPow(2, bits)) IN IF Rnd(key \o <<5>>, 2) = 0 THEN BNeg(x) ELSE BStr(x)
IsBig(q) == ~BIsInt(q)
ZeroOf(q) == Red(0, q)
OneOf(q) == Red(1, q)
MRed(M, q) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> Red(M[i][j], q)]]
VRed(v, q) == [i \in 1..Len(v) |-> Red(v[i], q)]
BStrM(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> BStr(M[i][j])]]
BStrV(v) == [i \in 1..Len(v) |-> BStr(v[i])]
\* v_p of a non-zero integer
RECURSIVE BVal(_, _)
BVal(a, p) == IF BEq(BMod(a, p), 0) THEN 1 + BVal(BDiv(a, p), p) ELSE 0
\* univariate polynomials over Z: sequences of coefficients, constant term first
PMul(a, b) == [k \in 1..(Len(a) + Len(b) - 1) |->
                 LET lo == Max2(1, k + 1 - Len(b)) hi == Min2(k, Len(a)) IN
                 BDot([i \in 1..(hi - lo + 1) |-> a[lo + i - 1]], [i \in 1..(hi - lo + 1) |-> b[k + 1 - (lo + i - 1)]])]
PProd(ps) == FoldLeft(PMul, <<"1">>, ps)
\* power sums s_1..s_k of the roots of a monic polynomial c (Newton), exact
PowerSums(c, k) ==
  LET deg == Len(c) - 1
      e(i) == IF i > deg THEN "0" ELSE IF i % 2 = 0 THEN BStr(c[deg + 1 - i]) ELSE BNeg(c[deg + 1 - i])
      \* s_k = sum_{i=1}^{k-1} (-1)^{i-1} e_i s_{k-i} + (-1)^{k-1} k e_k
      Nxt(s, j) == LET t == BSum([i \in 1..(j - 1) |-> IF i % 2 = 1 THEN BMul(e(i), s[j - i]) ELSE BNeg(BMul(e(i), s[j - i]))]) IN
                   Append(s, BAdd(t, IF j % 2 = 1 THEN BMul(j, e(j)) ELSE BNeg(BMul(j, e(j)))))
  IN FoldLeft(Nxt, <<>>, [j \in 1..k |-> j])
\* det by the Leibniz/Laplace definition and characteristic polynomial by principal minors: det(T - M)
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN "1"
          ELSE BSum([j \in 1..Len(M) |->
                 LET sub == [i \in 1..(Len(M) - 1) |-> [k \in 1..(Len(M) - 1) |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
                     t == IF BEq(M[1][j], 0) THEN "0" ELSE BMul(M[1][j], Det(sub))
                 IN IF j % 2 = 1 THEN t ELSE BNeg(t)])
CharPolyDef(M) ==
  LET n == Len(M)
      Minor(q) == Det([i \in 1..Len(q) |-> [j \in 1..Len(q) |-> M[q[i]][q[j]]]])
      Coef(k) == LET qs == SetToSeq(kSubset(k, 1..n)) IN BSum([t \in 1..Len(qs) |-> Minor(SetToSeq(qs[t]))])
  IN [c \in 1..(n + 1) |-> LET k == n + 1 - c IN IF k % 2 = 0 THEN Coef(k) ELSE BNeg(Coef(k))]
\* the same polynomial by the Faddeev-LeVerrier recursion (for larger matrices; equality of the two is checked in K03)
TraceM(M) == BSum([i \in 1..Len(M) |-> M[i][i]])
CharPolyFL(M) ==
  LET n == Len(M)
      Id == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
      step(acc, k) == LET AM == BMatMul(M, acc.m) c == BDiv(BNeg(TraceM(AM)), k) IN
                      [m |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN BAdd(AM[i][j], c) ELSE AM[i][j]]], cs |-> <<c>> \o acc.cs]
  IN IF n = 0 THEN <<"1">> ELSE FoldLeft(step, [m |-> Id, cs |-> <<"1">>], [k \in 1..n |-> k]).cs
=============================================================================
