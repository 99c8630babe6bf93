--------------------------------- MODULE GF ---------------------------------
(* Small finite fields F_(p^r), r <= 3: elements are the numbers 0..p^r-1, read as polynomials over F_p in base p, modulo an irreducible polynomial. *)
EXTENDS Big
Digits(x, p, r) == [i \in 1..r |-> (x \div PowInt(p, i - 1)) % p]
FromDigits(v, p) == FoldSeq(LAMBDA i, acc : acc + v[i] * PowInt(p, i - 1), 0, [i \in 1..Len(v) |-> i])
EvalLow(c, x, p) == FoldLeft(LAMBDA acc, i : (acc * x + c[Len(c) + 1 - i]) % p, 0, [i \in 1..Len(c) |-> i])
\* a monic irreducible polynomial of degree r: its r low coefficients (degree <= 3: no root suffices)
Irr(p, r) == IF r = 1 THEN <<0>> ELSE Digits(CHOOSE x \in 0..(PowInt(p, r) - 1) : \A t \in 0..(p - 1) : EvalLow(Digits(x, p, r) \o <<1>>, t, p) # 0, p, r)
MulX(v, irr, p) == LET r == Len(v) top == v[r] IN [i \in 1..r |-> ((IF i = 1 THEN 0 ELSE v[i - 1]) + (p - irr[i]) * top) % p]
GFMul(a, b, p, r, irr) ==
  LET va == Digits(a, p, r) vb == Digits(b, p, r)
      step(acc, i) == [x |-> MulX(acc.x, irr, p), s |-> [j \in 1..r |-> (acc.s[j] + vb[i] * acc.x[j]) % p]]
  IN IF r = 1 THEN (a * b) % p ELSE FromDigits(FoldLeft(step, [x |-> va, s |-> ConstV(r, 0)], [i \in 1..r |-> i]).s, p)
GFAddOf(a, b, p, r) == IF r = 1 THEN (a + b) % p ELSE FromDigits([i \in 1..r |-> (Digits(a, p, r)[i] + Digits(b, p, r)[i]) % p], p)
GFMake(p, r) == LET q == PowInt(p, r) irr == Irr(p, r) IN
  [p |-> p, r |-> r, q |-> q, mul |-> [a \in 0..(q - 1) |-> [b \in 0..(q - 1) |-> GFMul(a, b, p, r, irr)]], add |-> [a \in 0..(q - 1) |-> [b \in 0..(q - 1) |-> GFAddOf(a, b, p, r)]]]
GFPow(G, x, k) == FoldLeft(LAMBDA acc, i : G.mul[acc][x], 1, [i \in 1..k |-> i])
\* value of f (a sequence of <<exponents, coefficient in 0..p-1>>) at a point
GFEval(G, f, x) ==
  LET D == SeqMax([t \in 1..Len(f) |-> SeqMax(f[t][1])])
      pw == [i \in 1..Len(x) |-> [k \in 0..D |-> GFPow(G, x[i], k)]]
  IN FoldLeft(LAMBDA acc, t : G.add[acc][FoldLeft(LAMBDA m, i : G.mul[m][pw[i][t[1][i]]], t[2], [i \in 1..Len(x) |-> i])], 0, f)
\* points of P^n: first non-zero coordinate 1
ProjPoints(G, n) == {x \in [1..(n + 1) -> 0..(G.q - 1)] : \E i \in 1..(n + 1) : x[i] = 1 /\ \A j \in 1..(i - 1) : x[j] = 0}
Deriv(f, i, p) == SelectSeq([t \in 1..Len(f) |-> <<[f[t][1] EXCEPT ![i] = IF @ > 0 THEN @ - 1 ELSE 0], (f[t][1][i] * f[t][2]) % p>>], LAMBDA t : t[2] # 0)
SingularAt(G, f, n, x) == (Len(f) = 0 \/ GFEval(G, f, x) = 0) /\ \A i \in 1..(n + 1) : LET g == Deriv(f, i, G.p) IN Len(g) = 0 \/ GFEval(G, g, x) = 0
HasSingularPoint(G, f, n) == \E x \in ProjPoints(G, n) : SingularAt(G, f, n, x)
=============================================================================
