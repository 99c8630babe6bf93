----------------------------- MODULE LazyTables -----------------------------
(***************************************************************************)
(* The memo tables of one de Rham object, for one direction v and one start u. *)
(* Tables:  F1..Fn final reductions (level k needs level k-1), I inclusion,      *)
(* J, JZZ reductions of the general method (JZZ derives from J, and J is thrown   *)
(* away again when it was made only for that and save_memory holds), ND, NDZZ,      *)
(* PO, POZZ of the non-degenerate method (NDZZ and PO derive from ND, POZZ from       *)
(* PO), IN, CB inclusion and maps to the basis (CB needs IN and Fn).                     *)
(* A table entry carries whether its value is right: it is when all it was derived      *)
(* from was right and still there.  Every query must give a right answer in every        *)
(* reachable state.  Each transition is printed with a shortest history leading to it,    *)
(* to be replayed on the real code.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,            \* dimension
          Group,        \* "J" or "ND"
          SaveMemory,
          FillsBelow,   \* levels below k are filled before level k
          CopiesFirst,  \* the derived table is filled before the source is erased
          Emit          \* print the transitions
VARIABLES tab, ans, hist
vars == <<tab, ans, hist>>
F(k) == <<"F", k>>
Keys == {F(k) : k \in 1..N} \cup {<<x, 0>> : x \in {"I", "J", "JZZ", "ND", "NDZZ", "PO", "POZZ", "IN", "CB"}}
K(x) == <<x, 0>>
Have(t, k) == k \in DOMAIN t
Right(t, k) == Have(t, k) /\ t[k]
Put(t, k, ok) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN ok ELSE t[x]]
Del(t, k) == [x \in DOMAIN t \ {k} |-> t[x]]
\* final reductions up to k
Highest(t) == Cardinality({j \in 1..N : Have(t, F(j))})
RECURSIVE Fill(_, _, _)
Fill(t, i, k) == IF i > k THEN t ELSE Fill(Put(t, F(i), i = 1 \/ Right(t, F(i - 1))), i + 1, k)
Final(t, k) == IF Have(t, F(k)) THEN t ELSE IF FillsBelow THEN Fill(t, Highest(t) + 1, k) ELSE Put(t, F(k), k = 1 \/ Right(t, F(k - 1)))
Basic(t, x) == IF Have(t, K(x)) THEN t ELSE Put(t, K(x), TRUE)
\* a table derived from another one
Derive(t, x, src, make(_)) ==
  IF Have(t, K(x)) THEN t
  ELSE LET had == Have(t, K(src)) t1 == IF had THEN t ELSE make(t) drop == ~had /\ SaveMemory IN
       IF CopiesFirst THEN LET t2 == Put(t1, K(x), Right(t1, K(src))) IN IF drop THEN Del(t2, K(src)) ELSE t2
       ELSE LET t2 == IF drop THEN Del(t1, K(src)) ELSE t1 IN Put(t2, K(x), Right(t2, K(src)))
MkJ(t) == Basic(t, "J")
MkND(t) == Basic(t, "ND")
JZZ(t) == Derive(t, "JZZ", "J", MkJ)
NDZZ(t) == Derive(t, "NDZZ", "ND", MkND)
PO(t) == Derive(t, "PO", "ND", MkND)
POZZ(t) == Derive(t, "POZZ", "PO", PO)
CB(t) == IF Have(t, K("CB")) THEN t ELSE LET t1 == Final(Basic(t, "IN"), N) IN Put(t1, K("CB"), Right(t1, F(N)))
\* the operations: their effect and the entry their answer is read from
Ops == IF Group = "J" THEN {<<"final", k>> : k \in 1..N} \cup {<<o, 0>> : o \in {"incl", "red", "redZZ", "allJ", "mtb", "save"}}
       ELSE {<<"final", N>>} \cup {<<o, 0>> : o \in {"nd", "ndZZ", "po", "poZZ", "inclnd", "cokb", "allND", "mtbnd", "mtb"}}
After(t, o) ==
  CASE o[1] = "final" -> Final(t, o[2])
    [] o[1] = "incl" -> Basic(t, "I")
    [] o[1] = "red" -> MkJ(t)
    [] o[1] = "redZZ" -> JZZ(t)
    [] o[1] = "mtb" -> Final(Basic(MkJ(t), "I"), N)
    [] o[1] = "allJ" -> Final(Basic(JZZ(MkJ(t)), "I"), N)
    [] o[1] = "save" -> t
    [] o[1] = "nd" -> MkND(t)
    [] o[1] = "ndZZ" -> NDZZ(t)
    [] o[1] = "po" -> PO(t)
    [] o[1] = "poZZ" -> POZZ(t)
    [] o[1] = "inclnd" -> Basic(t, "IN")
    [] o[1] = "cokb" -> CB(t)
    [] o[1] = "mtbnd" -> CB(MkND(t))
    [] o[1] = "allND" -> CB(POZZ(PO(NDZZ(MkND(t)))))
Source(o) == CASE o[1] = "final" -> {F(o[2])} [] o[1] = "incl" -> {K("I")} [] o[1] = "red" -> {K("J")} [] o[1] = "redZZ" -> {K("JZZ")} [] o[1] = "mtb" -> {K("J"), K("I"), F(N)}
  [] o[1] = "nd" -> {K("ND")} [] o[1] = "ndZZ" -> {K("NDZZ")} [] o[1] = "po" -> {K("PO")} [] o[1] = "poZZ" -> {K("POZZ")} [] o[1] = "inclnd" -> {K("IN")} [] o[1] = "cokb" -> {K("CB")}
  [] o[1] = "mtbnd" -> {K("ND"), K("CB")} [] OTHER -> {}
Init == tab = [x \in {} |-> TRUE] /\ ans = TRUE /\ hist = <<>>
Do(o) == /\ tab' = After(tab, o)
         /\ ans' = \A k \in Source(o) : Right(tab', k)
         /\ hist' = Append(hist, o)
         /\ (Emit => PrintT("@@" \o ToJson(hist')))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == <<tab, ans>>
AnswersRight == ans
EntriesRight == \A k \in DOMAIN tab : tab[k]
TypeOK == DOMAIN tab \subseteq Keys
=============================================================================
