------------------------------- MODULE Cyclo -------------------------------
(* Cyclotomic polynomials and the number of roots p * (root of unity) of a polynomial. *)
EXTENDS Weil
RECURSIVE PDivX(_, _, _)
\* exact division of polynomials by a monic polynomial
PDivX(a, b, acc) == IF Len(a) < Len(b) THEN acc
   ELSE LET lead == a[Len(a)] sh == Len(a) - Len(b)
            r == [i \in 1..(Len(a) - 1) |-> IF i > sh THEN BSub(a[i], BMul(lead, b[i - sh])) ELSE a[i]]
        IN PDivX(r, b, <<lead>> \o acc)
PDiv(a, b) == PDivX(a, b, <<>>)
XmMinus1(m) == [i \in 1..(m + 1) |-> IF i = 1 THEN "-1" ELSE IF i = m + 1 THEN "1" ELSE "0"]
RECURSIVE Cyc(_)
Cyc(m) == LET ds == {k \in 1..(m - 1) : m % k = 0} IN FoldLeft(PDiv, XmMinus1(m), LET q == SetToSeq(ds) IN [i \in 1..Len(q) |-> Cyc(q[i])])
Scaled(c, p) == [i \in 1..Len(c) |-> BMul(c[i], BPow(p, Len(c) - i))]
\* every m with phi(m) <= 21
CycMs == SetToSeq({m \in 1..66 : Cardinality({k \in 1..m : \A g \in 2..m : ~(k % g = 0 /\ m % g = 0)}) <= 21})
PMulP(a, b) == PProd(<<a, b>>)
RECURSIVE Mult(_, _)
Mult(cp, c) == IF Len(cp) < Len(c) THEN 0 ELSE LET q == PDiv(cp, c) IN IF PMulP(q, c) = cp THEN 1 + Mult(q, c) ELSE 0
\* roots p * (root of unity) of a polynomial of degree <= 21
CycRoots(cp, p) == SumSeq([i \in 1..Len(CycMs) |-> LET c == Scaled(Cyc(CycMs[i]), p) IN (Len(c) - 1) * Mult(cp, c)])
=============================================================================
