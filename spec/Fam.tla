-------------------------------- MODULE Fam --------------------------------
(* Families of hypersurfaces the checks of the de Rham objects use: [n, d, p, k, f, style, nd].  f is given over Z/p^k, in general not a naive lift. *)
EXTENDS DeRham
NZ(key, q, p) == LET x == RndRes(key, q) IN IF BIsZero(Red(x, p)) THEN MAdd(x, 1, q) ELSE x
RandF(key, n, d, p, q, style) ==
  LET T == Tuples(n + 1, d)
      diag(t) == \E i \in 1..(n + 1) : t[i] = d
      nextto(t) == \E i \in 1..(n + 1) : t[i] = d - 1 /\ t[1 + (i % (n + 1))] = 1
      co(j) == LET r == RndRes(key \o <<j>>, q) z == Rnd(key \o <<j, 1>>, 6) IN
        CASE style = "dense" -> r
          [] style = "naive" -> Red(Red(r, p), q)
          [] style = "zeros" -> IF z < 2 THEN MMul(p, r, q) ELSE IF z = 3 THEN ZeroOf(q) ELSE r
          [] style = "sparse" -> IF diag(T[j]) THEN NZ(key \o <<j>>, q, p) ELSE IF z = 0 THEN r ELSE ZeroOf(q)
          [] style = "fermat" -> IF diag(T[j]) THEN NZ(key \o <<j>>, q, p) ELSE IF z = 0 THEN MMul(p, r, q) ELSE ZeroOf(q)
          [] style = "klein" -> IF nextto(T[j]) THEN NZ(key \o <<j>>, q, p) ELSE IF z = 0 THEN MMul(p, r, q) ELSE ZeroOf(q)
          \* only odd powers of the last variable missing, and similar symmetric equations
          [] style = "even" -> IF T[j][n + 1] % 2 = 1 THEN ZeroOf(q) ELSE r
  IN SelectSeq([j \in 1..Len(T) |-> <<T[j], co(j)>>], LAMBDA t : style \in {"dense", "naive", "zeros"} \/ ~BIsZero(t[2]))
RECURSIVE FindF(_, _, _, _, _, _, _, _)
FindF(key, n, d, p, q, style, nd, t) ==
  LET f == RandF(key \o <<t>>, n, d, p, q, style) IN
  IF t > 60 THEN Assert(FALSE, <<"no equation found", n, d, p, style>>)
  ELSE IF Len(f) > 0 /\ (IF nd THEN IsNDAlg(f, n, d, p) ELSE IsSmoothAlg(f, n, d, p)) THEN f ELSE FindF(key, n, d, p, q, style, nd, t + 1)
MkFam(x, c) == LET q == ModPow(c[3], c[4]) IN
  [n |-> c[1], d |-> c[2], p |-> c[3], k |-> c[4], style |-> c[5], nd |-> c[6], f |-> FindF(<<Seed, x, 31>>, c[1], c[2], c[3], q, c[5], c[6], 1)]
\* n, d, p, k, style, must be non-degenerate
FamQuick == << <<2, 3, 7, 3, "dense", TRUE>>, <<2, 3, 5, 4, "sparse", TRUE>>, <<2, 4, 5, 3, "dense", TRUE>>, <<2, 4, 5, 2, "klein", FALSE>>, <<2, 3, 2, 6, "zeros", FALSE>>, <<2, 4, 3, 5, "naive", FALSE>>,
              <<2, 3, 11, 3, "fermat", TRUE>>, <<2, 5, 7, 2, "sparse", TRUE>>, <<2, 3, 23, 14, "zeros", TRUE>>, <<2, 4, 11, 30, "even", FALSE>>, <<2, 3, 13, 4, "even", FALSE>>, <<2, 4, 13, 3, "zeros", TRUE>>,
              <<2, 3, 101, 10, "naive", TRUE>>, <<2, 4, 17, 3, "sparse", TRUE>>, <<2, 3, 5, 1, "dense", TRUE>>, <<1, 3, 5, 3, "dense", TRUE>>, <<1, 4, 7, 3, "zeros", TRUE>>, <<3, 4, 5, 2, "sparse", TRUE>>, <<3, 4, 7, 3, "klein", FALSE>>,
              <<2, 3, 5, 12, "naive", TRUE>>, <<2, 3, 2147483629, 2, "sparse", TRUE>> >>
FamMore == << <<2, 3, 7, 5, "klein", FALSE>>, <<2, 3, 31, 3, "zeros", TRUE>>, <<2, 4, 5, 27, "dense", TRUE>>, <<2, 4, 23, 3, "fermat", TRUE>>, <<2, 5, 3, 4, "zeros", FALSE>>, <<2, 5, 11, 3, "klein", FALSE>>,
              <<2, 6, 5, 3, "fermat", TRUE>>, <<3, 4, 11, 3, "dense", TRUE>>, <<3, 4, 3, 6, "even", FALSE>>, <<3, 5, 7, 2, "fermat", TRUE>>, <<1, 5, 11, 2, "sparse", TRUE>>, <<1, 2, 7, 4, "dense", TRUE>>, <<3, 4, 5, 30, "fermat", TRUE>>,
              <<2, 3, 2, 10, "klein", FALSE>>, <<2, 5, 2, 5, "naive", FALSE>>, <<2, 3, 46337, 4, "dense", TRUE>>, <<1, 6, 13, 3, "zeros", TRUE>> >>
FamList == IF Thorough THEN FamQuick \o FamMore ELSE FamQuick
NFam == Len(FamList)
FamAt(x) == MkFam(x, FamList[x])
Qof(F) == ModPow(F.p, F.k)
\* all exponent vectors with positive entries and sum m d
PosTuples(n, d, m) == LET T == Tuples(n + 1, m * d - n - 1) IN [g \in 1..Len(T) |-> VAdd(T[g], Ones(n + 1))]
\* a pseudo-random exponent vector with the given sum and entries >= low
RndMon(key, len, sum, low) ==
  LET R == sum - low * len
      cuts == SortSeq([i \in 1..(len - 1) |-> Rnd(key \o <<i>>, R + 1)], LAMBDA a, b : a < b)
  IN [i \in 1..len |-> low + (IF i = 1 THEN (IF len = 1 THEN R ELSE cuts[1]) ELSE IF i = len THEN R - cuts[len - 1] ELSE cuts[i] - cuts[i - 1])]
NewCmd(F, id, kind, how) == [op |-> "new", id |-> id, kind |-> kind, how |-> how, p |-> F.p, prec |-> F.k, n |-> F.n, d |-> F.d, f |-> F.f]
CtxCmd(F) == [op |-> "ctx", p |-> F.p, prec |-> F.k]
=============================================================================
