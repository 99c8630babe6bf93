--------------------------- MODULE SmoothCriterion ---------------------------
(***************************************************************************)
(* Exhaustive over all forms of degree d in n+1 variables over F_p: the rank    *)
(* criteria of DeRham.tla (what isSmooth and isND decide) hold exactly when       *)
(* there is no singular point over F_p, .., F_(p^R) on f, respectively on f and      *)
(* its restrictions to the coordinate subspaces.  (R is chosen so that singular      *)
(* points, if any, exist over one of these fields.)                                    *)
(***************************************************************************)
EXTENDS Smooth
CONSTANTS NN, DD, PP, RR
VARIABLE code
Tt == Tuples(NN + 1, DD)
Fields == [r \in 1..RR |-> GFMake(PP, r)]
Pts == [r \in 1..RR |-> ProjPoints(Fields[r], NN)]
FormOf(c) == SelectSeq([j \in 1..Len(Tt) |-> <<Tt[j], (c \div PowInt(PP, j - 1)) % PP>>], LAMBDA t : t[2] # 0)
Singular(f) == \E r \in 1..RR : \E x \in Pts[r] : SingularAt(Fields[r], f, NN, x)
\* the point lies on a coordinate subspace {x_i = 0, i not in I}; its restriction is singular there
SingularStratum(f) == \E I \in (SUBSET (1..(NN + 1))) \ {{}} : LET g == OnCoords(f, I) k == Cardinality(I) - 1 IN
   \E r \in 1..RR : \E x \in ProjPoints(Fields[r], k) : SingularAt(Fields[r], g, k, x)
Init == code \in 0..(PowInt(PP, Len(Tt)) - 1)
Next == UNCHANGED code
Spec == Init /\ [][Next]_code
SmoothOk == LET f == FormOf(code) IN SmoothForm(f, NN, DD, PP) <=> ~Singular(f)
NDOk == LET f == FormOf(code) nd == Len(f) > 0 /\ IsNDAlg(f, NN, DD, PP) IN (nd <=> ~SingularStratum(f)) /\ (nd <=> NDByStrata(f, NN, DD, PP)) /\ (nd => SmoothForm(f, NN, DD, PP))
=============================================================================
