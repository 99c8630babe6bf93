------------------------------- MODULE DeRham -------------------------------
(***************************************************************************)
(* The middle de Rham cohomology of the complement of a smooth projective   *)
(* hypersurface f = 0 of degree d in P^n, over Z/q, q = p^k, as a rewriting  *)
(* system on differential forms, and the class function it determines.       *)
(*                                                                          *)
(* A monomial form is an exponent vector u of n+1 positive entries whose    *)
(* sum is m d; it stands for  (m-1)! x^u Omega / (x_0 ... x_n f^m), pole      *)
(* order m.  Griffiths-Dwork:  for every exponent vector a >= 0 with         *)
(* |a| = m d - n and every i                                                 *)
(*    sum_t f_t t_i [a + 1 + t - e_i]  =  a_i [a + 1 - e_i]                   *)
(* (pole order m + 1 on the left, m on the right).  The classes of the       *)
(* forms of pole order <= n given by a list of exponents b ("basis", so that  *)
(* u = b + 1) are a basis of the quotient:  [b + 1] = (m - 1)! e_b.           *)
(* f is a sequence of <<exponent vector, coefficient>>.                      *)
(***************************************************************************)
EXTENDS Big
\* ---- exponent vectors as numbers: rank in the increasing lexicographic order, starting at 1
Bn(x, k) == IF x < k THEN 0 ELSE CASE k = 0 -> 1 [] k = 1 -> x [] k = 2 -> (x * (x - 1)) \div 2 [] k = 3 -> (x * (x - 1) * (x - 2)) \div 6 [] OTHER -> BinomI(x, k)
NTup(len, sum) == IF sum < 0 THEN 0 ELSE Bn(sum + len - 1, len - 1)
Idx(u) == LET L == Len(u)
              RECURSIVE G(_, _)
              G(i, rem) == IF i = L THEN 1 ELSE Bn(rem + L - i, L - i) - Bn(rem - u[i] + L - i, L - i) + G(i + 1, rem - u[i])
          IN G(1, SumSeq(u))
NonNeg(u) == \A i \in 1..Len(u) : u[i] >= 0
Pos(u) == \A i \in 1..Len(u) : u[i] > 0
Inc(u, i) == [u EXCEPT ![i] = @ + 1]
Dec(u, i) == [u EXCEPT ![i] = @ - 1]
Ones(len) == ConstV(len, 1)
Fact(k) == IF k <= 1 THEN 1 ELSE LET RECURSIVE G(_, _) G(i, acc) == IF i > k THEN acc ELSE G(i + 1, acc * i) IN G(2, 1)
UnitVec(len, j, v, q) == [i \in 1..len |-> IF i = j THEN v ELSE ZeroOf(q)]
\* ---- matrices of the maps (H_0..H_n) |-> sum_i H_i d_i f (kind "J") and sum_i H_i x_i d_i f (kind "ND") in degree l, given by columns
ColsOf(f, n, d, l, q, kind) ==
  LET e == l - (IF kind = "J" THEN d - 1 ELSE d)
      W == IF e < 0 THEN <<>> ELSE Tuples(n + 1, e)
      col(i, w) == LET T == SelectSeq(f, LAMBDA t : t[1][i] > 0)
                       pos == [k \in 1..Len(T) |-> Idx(VAdd(w, IF kind = "J" THEN Dec(T[k][1], i) ELSE T[k][1]))]
                       val == [k \in 1..Len(T) |-> MMul(T[k][1][i], T[k][2], q)]
                       m == [x \in Range1(pos) |-> val[CHOOSE k \in 1..Len(T) : pos[k] = x]]
                   IN [g \in 1..NTup(n + 1, l) |-> IF g \in DOMAIN m THEN m[g] ELSE ZeroOf(q)]
  IN FlattenSeq([i \in 1..(n + 1) |-> [k \in 1..Len(W) |-> col(i, W[k])]])
TransposeM(C, rows) == [i \in 1..rows |-> [j \in 1..Len(C) |-> C[j][i]]]
\* the contract of the solver over Z/p^k (see K02) for the m x n matrix T
IncreasingIndices(B, m) == /\ \A i \in 1..Len(B) : B[i] \in 0..(m - 1)
                           /\ \A i \in 1..(Len(B) - 1) : B[i] < B[i + 1]
TJ(T, B, m, n, q) == [i \in 1..m |-> [j \in 1..(n + Len(B)) |-> IF j <= n THEN Red(T[i][j], q) ELSE IF B[j - n] = i - 1 THEN OneOf(q) ELSE ZeroOf(q)]]
IdM(m, q) == [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN OneOf(q) ELSE ZeroOf(q)]]
SolveContract(T, m, n, B, U, p, q) ==
  IF ~IncreasingIndices(B, m) THEN "B is not an increasing list of row indices"
  ELSE LET X == TJ(T, B, m, n, q) IN
       IF Len(B) # m - (IF n = 0 THEN 0 ELSE MRank(MRed(T, p), p)) \/ MRank(MRed(X, p), p) # m THEN "the unit vectors of B are not a basis of the cokernel modulo p"
       ELSE IF Len(U) # n + Len(B) \/ \E i \in 1..Len(U) : Len(U[i]) # m THEN "U has the wrong shape"
       ELSE IF MMatMul(X, U, q) # IdM(m, q) THEN "(T+J)U is not the identity modulo p^k"
       ELSE "ok"
\* the list <<i, w>> of the columns above
ColNames(n, d, l, kind) == LET e == l - (IF kind = "J" THEN d - 1 ELSE d) W == IF e < 0 THEN <<>> ELSE Tuples(n + 1, e) IN
   FlattenSeq([i \in 1..(n + 1) |-> [k \in 1..Len(W) |-> <<i, W[k]>>]])
FullRank(f, n, d, l, p, kind) == LET C == ColsOf(f, n, d, l, p, kind) IN MRank(C, p) = NTup(n + 1, l)
\* ---- smooth / non-degenerate: the ideal contains everything of degree (d-2)(n+1)+1, resp. (d-1)(n+1)+1
TopJ(n, d) == (d - 2) * (n + 1) + 1
TopND(n, d) == (d - 1) * (n + 1) + 1
IsSmoothAlg(f, n, d, p) == FullRank(f, n, d, TopJ(n, d), p, "J")
IsNDAlg(f, n, d, p) == FullRank(f, n, d, TopND(n, d), p, "ND")
\* ---- coefficients of (1 + x + ... + x^(e-1))^(n+1)
HilbertVec(n, e) == LET one == [i \in 1..e |-> 1]
                        mul(a, b) == [k \in 1..(Len(a) + Len(b) - 1) |-> FoldSeq(LAMBDA i, acc : acc + (IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0), 0, [i \in 1..Len(a) |-> i])]
                    IN FoldLeft(LAMBDA acc, i : mul(acc, one), <<1>>, [i \in 1..(n + 1) |-> i])
\* ---- the class function
BasisPole(b, n, d) == (SumSeq(b) + n + 1) \div d
\* sparse lists <<row name, coefficient>> of the columns of a right inverse
SparseCol(X, g, rows) == SelectSeq([j \in 1..rows |-> <<j, X[j][g]>>], LAMBDA e : ~BIsZero(e[2]))
\* level m <= n, tab = classes up to level m - 1
LowLevel(f, n, d, p, q, basis, m, tab) ==
  LET l == m * d - n - 1
      C == ColsOf(f, n, d, l, q, "J")
      N == ColNames(n, d, l, "J")
      Bs == SelectSeq([j \in 1..Len(basis) |-> j], LAMBDA j : BasisPole(basis[j], n, d) = m)
      E == [k \in 1..Len(Bs) |-> UnitVec(NTup(n + 1, l), Idx(basis[Bs[k]]), OneOf(q), q)]
      A == TransposeM(C \o E, NTup(n + 1, l))
      X == IF NTup(n + 1, l) = 0 THEN <<>> ELSE MRightInv(A, p, q)
      nc == Len(C)
      class(g) == LET S == SparseCol(X, g, nc + Len(Bs))
                      low == SelectSeq(S, LAMBDA e : e[1] <= nc /\ N[e[1]][2][N[e[1]][1]] > 0)
                      top == SelectSeq(S, LAMBDA e : e[1] > nc)
                      \* x^w d_i f / f^m  ~  w_i x^(w - e_i) / f^(m-1)
                  IN MLin([k \in 1..Len(low) |-> MMul(N[low[k][1]][2][N[low[k][1]][1]], low[k][2], q)] \o [k \in 1..Len(top) |-> MMul(Fact(m - 1), top[k][2], q)],
                          [k \in 1..Len(low) |-> tab[m - 1][Idx(Dec(N[low[k][1]][2], N[low[k][1]][1]))]] \o [k \in 1..Len(top) |-> UnitVec(Len(basis), Bs[top[k][1] - nc], OneOf(q), q)],
                          Len(basis), q)
  IN IF NTup(n + 1, l) > 0 /\ X = <<>> THEN <<>> ELSE [g \in 1..NTup(n + 1, l) |-> class(g)]
\* how x^s of degree TopJ is written in the Jacobian ideal: for each s a list of <<i, w, coefficient>>
TopTable(f, n, d, p, q) ==
  LET l == TopJ(n, d) C == ColsOf(f, n, d, l, q, "J") N == ColNames(n, d, l, "J") X == MRightInv(TransposeM(C, NTup(n + 1, l)), p, q) IN
  [g \in 1..NTup(n + 1, l) |-> LET S == SparseCol(X, g, Len(C)) IN [k \in 1..Len(S) |-> <<N[S[k][1]][1], N[S[k][1]][2], S[k][2]>>]]
\* split g = a + s with |s| = D: s takes from the first coordinates

TakeFirst(g, D) == LET RECURSIVE G(_, _) G(i, rem) == IF i > Len(g) THEN <<>> ELSE LET x == Min2(g[i], rem) IN <<x>> \o G(i + 1, rem - x) IN G(1, D)
HighLevel(n, d, q, top, m, prev, len) ==
  LET T == Tuples(n + 1, m * d - n - 1)
      class(g) == LET sv == TakeFirst(g, TopJ(n, d)) a == VSub(g, sv)
                      L == SelectSeq(top[Idx(sv)], LAMBDA e : (a[e[1]] + e[2][e[1]]) > 0)
                  IN MLin([k \in 1..Len(L) |-> MMul(a[L[k][1]] + L[k][2][L[k][1]], L[k][3], q)], [k \in 1..Len(L) |-> prev[Idx(Dec(VAdd(a, L[k][2]), L[k][1]))]], len, q)
  IN [g \in 1..Len(T) |-> class(T[g])]
\* the last level of the table is empty although forms of that pole order exist: the list given is not a basis
BadLevel(n, d, tab) == Len(tab[Len(tab)]) = 0 /\ NTup(n + 1, Len(tab) * d - n - 1) > 0
\* classes of all forms of pole order 1..M; <<>> when the list given is not a basis
ClassTable(f, n, d, p, q, basis, M) ==
  LET low == FoldLeft(LAMBDA tab, m : IF tab # <<>> /\ BadLevel(n, d, tab) THEN tab ELSE Append(tab, LowLevel(f, n, d, p, q, basis, m, tab)), <<>>, [m \in 1..Min2(n, M) |-> m])
      top == TopTable(f, n, d, p, q)
  IN IF BadLevel(n, d, low) THEN <<>>
     ELSE FoldLeft(LAMBDA tab, m : Append(tab, HighLevel(n, d, q, top, m, tab[m - 1], Len(basis))), low, [k \in 1..(M - n) |-> n + k])
ClassOf(tab, u, d) == tab[SumSeq(u) \div d][Idx([i \in 1..Len(u) |-> u[i] - 1])]
\* ---- the defining relations, for any assignment of coordinate vectors val(u)
RelationAt(f, val(_), n, q, len, a, i) ==
  LET T == SelectSeq(f, LAMBDA t : t[1][i] > 0)
      lhs == MLin([k \in 1..Len(T) |-> MMul(T[k][1][i], T[k][2], q)], [k \in 1..Len(T) |-> val(Dec(VAdd(VAdd(a, Ones(n + 1)), T[k][1]), i))], len, q)
      rhs == IF a[i] = 0 THEN [j \in 1..len |-> ZeroOf(q)] ELSE MLin(<<a[i]>>, <<val(Dec(VAdd(a, Ones(n + 1)), i))>>, len, q)
  IN lhs = rhs
EulerAt(f, val(_), n, d, q, len, u) ==
  MLin([k \in 1..Len(f) |-> f[k][2]], [k \in 1..Len(f) |-> val(VAdd(u, f[k][1]))], len, q) = MLin(<<SumSeq(u) \div d>>, <<val(u)>>, len, q)
NormalAt(val(_), n, d, q, basis, j) ==
  val([i \in 1..(n + 1) |-> basis[j][i] + 1]) = UnitVec(Len(basis), j, Red(Fact(BasisPole(basis[j], n, d) - 1), q), q)
AllRelations(f, val(_), n, d, q, basis, M) ==
  /\ \A j \in 1..Len(basis) : NormalAt(val, n, d, q, basis, j)
  /\ \A m \in 1..(M - 1) : \A a \in Range1(Tuples(n + 1, m * d - n)) : \A i \in 1..(n + 1) : RelationAt(f, val, n, q, Len(basis), a, i)
=============================================================================
