-------------------------------- MODULE K05 --------------------------------
(***************************************************************************)
(* geometric_picard: the number of roots of the form p * (root of unity),   *)
(* plus one when the dimension is even.  Generator: products of scaled      *)
(* cyclotomic polynomials p^phi(m) Phi_m(T/p), computed from T^m - 1, and   *)
(* factors T^2 - a T + p^2 with |a| < 2p whose roots are p * (root of       *)
(* unity) exactly when a is 0, p, -p.                                       *)
(***************************************************************************)
EXTENDS Cyclo
\* irreducible non-cyclotomic factors: quadratics, and T^4 - a T^2.. obtained from a quadratic in T^2 when it stays integral
Other(key, p) == LET as == SetToSeq({a \in (1 - 2 * p)..(2 * p - 1) : a \notin {0, p, -p}}) IN Quad(RndEl(key, as), p, 2)
Ms == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 22, 24, 25, 26, 28, 30, 36, 42, 44, 50, 60, 66>>
Phi(m) == Len(Cyc(m)) - 1
PhiTab == [i \in 1..Len(Ms) |-> Phi(Ms[i])]
Case(key) ==
  LET p == RndEl(key \o <<1>>, <<2, 3, 5, 7, 11, 13, 43, 101>>)
      nc == Rnd(key \o <<2>>, 4) no == Rnd(key \o <<3>>, 4)
      pick(i) == 1 + Rnd(key \o <<4, i>>, IF Rnd(key \o <<5>>, 3) = 0 THEN Len(Ms) ELSE 8)
      mult(i) == 1 + (IF Rnd(key \o <<6, i>>, 3) = 0 THEN Rnd(key \o <<7, i>>, IF Rnd(key \o <<11, i>>, 5) = 0 THEN 22 ELSE 3) ELSE 0)
      cs == FlattenSeq([i \in 1..nc |-> [j \in 1..mult(i) |-> Scaled(Cyc(Ms[pick(i)]), p)]])
      cnt == FoldSeq(LAMBDA a, b : a + b, 0, [i \in 1..nc |-> mult(i) * PhiTab[pick(i)]])
      os == FlattenSeq([i \in 1..no |-> LET f == Other(key \o <<8, i>>, p) IN [j \in 1..(1 + Rnd(key \o <<9, i>>, 2)) |-> f]])
      dim == RndEl(key \o <<10>>, <<2, 2, 2, 1, 3, 4, 5, 6, 10>>)
  IN [op |-> "picard", cp |-> PProd(cs \o os), p |-> p, dim |-> dim, want |-> cnt + (IF dim % 2 = 0 THEN 1 ELSE 0)]
\* every cyclotomic factor on its own, for several primes
Single(i) == [k \in 1..3 |-> [op |-> "picard", cp |-> Scaled(Cyc(Ms[i]), <<2, 3, 7>>[k]), p |-> <<2, 3, 7>>[k], dim |-> 2, want |-> PhiTab[i] + 1]]
Quads(p) == [k \in 1..(4 * p - 1) |-> LET a == k - 2 * p IN [op |-> "picard", cp |-> Quad(a, p, 2), p |-> p, dim |-> 2, want |-> IF a \in {0, p, -p} THEN 3 ELSE 1]]
Gen(x) == [i \in 1..Len(Ms) |-> [cmds |-> Single(i)]] \o [i \in 1..5 |-> [cmds |-> Quads(<<2, 3, 5, 7, 11>>[i])]] \o
          [k \in 1..Pick(60, 800) |-> [cmds |-> [t \in 1..15 |-> Case(<<Seed, k, t>>)]]]
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))
Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
Step(sess, a, e) ==
  IF "died" \in DOMAIN e THEN Bad("geometric_picard did not return: " \o e.died)
  ELSE IF e.res = e.want THEN Ok(a) ELSE Bad("wrong number of roots p * (root of unity)")
InitSt(sess) == 0
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
