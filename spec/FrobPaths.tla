------------------------------ MODULE FrobPaths ------------------------------
(***************************************************************************)
(* The paths of controlled reduction: a form x^(p u) of pole order p e, |u| = e d,   *)
(* is brought to pole order p (e - 1) in p (at the end p - 1, or p - (n mod p)) steps   *)
(* of one direction v, |v| = d, chosen from u; then u - v takes the place of u.           *)
(* Rule "J": v has a 1 wherever u is positive, the rest from the left.  All intermediate   *)
(* forms lie in V_w, w = tweak(p u - i v, d n - n), and the path ends at pole order n.        *)
(* Rule "ND": v from the left with u - v staying >= 1 (rule "NDshift": >= 1 + b when e > m),   *)
(* and at e = 1 v = u.  Checked for every start: a direction always exists, nothing becomes     *)
(* negative (or, for ND, zero), the routines that do many steps at once make the same path.       *)
(* The variant Guard = FALSE lets the rule take any positive entry and is wrong.                    *)
(***************************************************************************)
EXTENDS DeRham
CONSTANTS NN, DD, PP, Terms, Rule, Guard
VARIABLES u, e, m, b, w
vars == <<u, e, m, b, w>>
Twk(x, r) == LET RECURSIVE G(_, _) G(i, rem) == IF i > Len(x) THEN <<>> ELSE LET z == Min2(x[i], rem) IN <<x[i] - z>> \o G(i + 1, rem - z) IN G(1, r)
Len1 == NN + 1
Zero == ConstV(Len1, 0)
\* how many further units direction v may take from entry i
Room(i) == IF Rule = "J" \/ ~Guard THEN u[i] ELSE u[i] - 1 - (IF Rule = "NDshift" /\ e > m THEN b[i] ELSE 0)
FromLeft(v0) == LET RECURSIVE G(_) G(v) == IF SumSeq(v) = DD THEN v
                      ELSE LET I == {i \in 1..Len1 : Room(i) > v[i]} IN IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN G([v EXCEPT ![i] = @ + 1])
                IN G(v0)
Dir == IF Rule = "J" THEN FromLeft([i \in 1..Len1 |-> IF u[i] > 0 THEN 1 ELSE 0]) ELSE IF e = 1 THEN u ELSE FromLeft(Zero)
LastE == IF Rule = "J" THEN NN \div PP + 1 ELSE 1
Steps == IF Rule = "J" THEN (IF e > LastE THEN PP ELSE PP - (NN % PP)) ELSE (IF e > 1 THEN PP ELSE PP - 1)
\* exponents of basis elements are >= 0 of degree m d - n - 1; terms of f^j any exponents of degree j d
Init == /\ m \in 1..NN /\ e \in m..(m + Terms - 1)
        /\ b \in Range1(Tuples(Len1, m * DD - NN - 1))
        /\ \E t \in Range1(Tuples(Len1, (e - m) * DD)) : u = VAdd(VAdd(t, b), Ones(Len1))
        /\ w = "start"
Next == \/ /\ w = "start" /\ e >= LastE /\ Dir # <<>>
           /\ w' = "chosen" /\ UNCHANGED <<u, e, m, b>>
        \/ /\ w = "chosen" /\ e > LastE
           /\ u' = VSub(u, Dir) /\ e' = e - 1 /\ w' = "start" /\ UNCHANGED <<m, b>>
        \/ /\ w = "chosen" /\ e = LastE /\ w' = "done" /\ UNCHANGED <<u, e, m, b>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Dn == DD * NN - NN
SumOk == SumSeq(u) = e * DD
\* a direction exists whenever one is needed
CanGo == w = "start" /\ e >= LastE => Dir # <<>>
PathJ == (Rule = "J" /\ w = "chosen") =>
   /\ \A i \in 0..Steps : NonNeg(VSub(VScal(PP, u), VScal(i, Dir)))
   /\ \A i \in 0..(Steps - 1) : LET x == Twk(VSub(VScal(PP, u), VScal(i, Dir)), Dn) y == Twk(VSub(VScal(PP, u), VScal(i + 1, Dir)), Dn) IN
        /\ NonNeg(y) /\ NonNeg(VSub(x, y)) /\ SumSeq(VSub(x, y)) = DD
        \* the many-step routine covers the steps before the last Dn ones: there the direction is v itself
        /\ i < Steps - Dn => VSub(x, y) = Dir
   /\ (Steps > Dn => LET r == Steps - Dn IN VAdd(VAdd(VScal(PP, VSub(u, Dir)), VScal(PP - Steps, Dir)), Twk(VScal(Dn, Dir), Dn)) = Twk(VSub(VScal(PP, u), VScal(r, Dir)), Dn))
   /\ (e = LastE => SumSeq(Twk(VSub(VScal(PP, u), VScal(Steps, Dir)), Dn)) = NN)
PathND == (Rule # "J" /\ w = "chosen") =>
   /\ \A i \in 0..Steps : Pos(VSub(VScal(PP, u), VScal(i, Dir)))
   /\ (e > 1 => VSub(VScal(PP, u), VScal(Steps, Dir)) = VScal(PP, VSub(u, Dir)))
   /\ (e = 1 => VSub(VScal(PP, u), VScal(Steps, Dir)) = u)
Shifted == Rule = "NDshift" /\ e > m => \A i \in 1..Len1 : u[i] >= b[i] + 1
TypeOK == NonNeg(u) /\ (Rule # "J" => Pos(u))
AllEnd == <>(w = "done" \/ e < LastE)
=============================================================================
