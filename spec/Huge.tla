-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Reduction steps at exponents of up to 60 bits.  The relations of           *)
(* DeRham.tla are polynomial in the exponents with coefficients modulo q, so   *)
(* the step from u + v to u depends on u only modulo q (and on which entries   *)
(* vanish): the results at u = base + q d t are those at base.  When q is too   *)
(* large for that, the routines are compared with each other at a random u.    *)
(* u is a sequence of decimal strings, base a sequence of integers or <<>>.     *)
(***************************************************************************)
EXTENDS Fam
HugeMax(d, q) == BDiv(BPow(2, 60), BMul(q, d))
HugeU(key, base, q, d) ==
  LET m == HugeMax(d, q) IN
  [i \in 1..Len(base) |-> IF base[i] = 0 THEN "0" ELSE BAdd(base[i], BMul(BMul(q, d), IF BCmp(m, 4) > 0 THEN RndRes(key \o <<i>>, BStr(m)) ELSE 0))]
HugeWild(key, len, zero, rest, d) ==
  LET U == [i \in 1..len |-> IF i \in zero THEN "0" ELSE BAdd(1, RndRes(key \o <<i>>, BPow(2, 59)))]
      \* the sum is congruent to rest modulo d
      j == CHOOSE i \in 1..len : i \notin zero
      s == BMod(BSub(rest, BSum(U)), d)
  IN [U EXCEPT ![j] = BAdd(U[j], s)]
HugeInit == [base |-> <<>>, bm |-> <<>>, v |-> <<>>, u |-> <<>>, m |-> <<>>, G |-> <<>>, k |-> -1, res |-> <<>>]
\* commands: op names red / rv; the base step comes first
HugeCmds(red, rv, hows, base, v, u, wild, k, G) ==
  (IF wild THEN <<>> ELSE << [op |-> red, id |-> 1, u |-> base, v |-> v, zz |-> 0], [op |-> rv, id |-> 1, u |-> base, v |-> v, k |-> k, G |-> G, how |-> "poly"] >>)
  \o << [op |-> red, id |-> 1, u |-> u, v |-> v, zz |-> 0, huge |-> IF wild THEN <<>> ELSE base], [op |-> red, id |-> 1, u |-> u, v |-> v, zz |-> 1, huge |-> IF wild THEN <<>> ELSE base] >>
  \o [i \in 1..Len(hows) |-> [op |-> rv, id |-> 1, u |-> u, v |-> v, k |-> 1, G |-> G, how |-> hows[i], huge |-> IF wild THEN <<>> ELSE base]]
  \o [i \in 1..2 |-> [op |-> rv, id |-> 1, u |-> u, v |-> v, k |-> k, G |-> G, how |-> IF i = 1 THEN "poly" ELSE "polyZZ", huge |-> IF wild THEN <<>> ELSE base]]
\* h the state above, bm the matrix recorded at e.huge (or <<>>), last the last reduction of a vector at small exponents: <<why, h'>>
HugeRed(h, e, bm) ==
  IF e.zz = 0 THEN (IF bm # <<>> /\ bm # e.res THEN <<"the reduction matrix is not the one at the exponents modulo q", h>> ELSE <<"ok", [h EXCEPT !.u = e.u, !.v = e.v, !.m = e.res, !.k = -1]>>)
  ELSE IF h.u = e.u /\ h.v = e.v /\ h.m = e.res THEN <<"ok", h>> ELSE <<"the reduction matrix over the integers differs", h>>
HugeRv(h, e, last, q) ==
  IF e.k = 1 /\ h.u = e.u /\ h.v = e.v /\ MMatVec(h.m, e.G, q) # e.res THEN <<e.how \o " differs from the reduction matrix applied to the vector", h>>
  ELSE IF h.k = e.k /\ h.u = e.u /\ h.v = e.v /\ h.G = e.G /\ h.res # e.res THEN <<e.how \o " differs from the other routines", h>>
  ELSE IF Len(e.huge) > 0 /\ last.u = e.huge /\ last.v = e.v /\ last.k = e.k /\ last.G = e.G /\ last.res # e.res THEN <<e.how \o " is not the reduction at the exponents modulo q", h>>
  ELSE <<"ok", [h EXCEPT !.k = e.k, !.G = e.G, !.res = e.res]>>
=============================================================================
