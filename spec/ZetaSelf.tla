------------------------------ MODULE ZetaSelf ------------------------------
(* The two oracles agree: the Jacobi sum polynomial has the power sums of the point counts. *)
EXTENDS Zeta
Cases == << <<2, 3, 7, <<1, 1, 1>>>>, <<2, 3, 7, <<1, 2, 3>>>>, <<2, 3, 13, <<1, 5, 12>>>>, <<2, 4, 5, <<1, 2, 3>>>>, <<2, 4, 13, <<1, 1, 7>>>>, <<2, 5, 11, <<1, 3, 7>>>>, <<3, 4, 5, <<1, 2, 3, 4>>>>, <<3, 4, 13, <<1, 1, 1, 1>>>>, <<1, 4, 5, <<1, 2>>>>, <<1, 3, 7, <<1, 3>>>>, <<3, 3, 7, <<1, 1, 2, 3>>>> >>
ASSUME \A i \in 1..Len(Cases) : LET c == Cases[i] n == c[1] d == c[2] p == c[3] z == DiagZeta(n, d, p, c[4]) IN
   /\ Len(z) = DimPrim(n, d) + 1 /\ IsMonic(z) /\ FunctionalEquation(z, p, n - 1, SignFE(z))
   /\ (CountsAgree(z, DiagTerms(n, d, c[4]), n, p, MaxR(n, p, 30000, 1)) \/ Assert(FALSE, <<"disagree", c, z>>))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
