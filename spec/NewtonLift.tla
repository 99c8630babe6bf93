----------------------------- MODULE NewtonLift -----------------------------
(***************************************************************************)
(* Design model of the p-adic solver: Newton iteration U <- 2U - U X U.     *)
(* State: X (m x n over Z/p^K), U, the precision j reached.  Invariant: the *)
(* current U is a right inverse of X modulo p^min(j, K).  Initially U is    *)
(* ANY right inverse modulo p; termination is at j >= K.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, K, M, N
RECURSIVE Pw(_, _)
Pw(a, n) == IF n = 0 THEN 1 ELSE a * Pw(a, n - 1)
Q == Pw(P, K)
RECURSIVE Sm(_, _)
Sm(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sm(f, n - 1)
Mats(r, c, q) == [(1..r) \X (1..c) -> 0..(q - 1)]
Mul(A, B, r, k, c, q) == [ij \in (1..r) \X (1..c) |-> Sm([t \in 1..k |-> A[<<ij[1], t>>] * B[<<t, ij[2]>>]], k) % q]
IsRI(X, U, q) == Mul(X, U, M, N, M, q) = [ij \in (1..M) \X (1..M) |-> IF ij[1] = ij[2] THEN 1 % q ELSE 0]
VARIABLES X, U, j
Init == X \in Mats(M, N, Q) /\ U \in Mats(N, M, P) /\ IsRI(X, U, P) /\ j = 1
Next == /\ j < K
        /\ LET XU == Mul(X, U, M, N, M, Q) UXU == Mul(U, XU, N, M, M, Q) IN
           U' = [ij \in (1..N) \X (1..M) |-> (2 * U[ij] - UXU[ij]) % Q]
        /\ j' = 2 * j /\ X' = X
Spec == Init /\ [][Next]_<<X, U, j>>
Lifted == IsRI(X, U, Pw(P, IF j < K THEN j ELSE K))
=============================================================================
