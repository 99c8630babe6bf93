-------------------------------- MODULE D08 --------------------------------
(***************************************************************************)
(* Saving and loading (SaveProtocol.tla).  Conformance: save under names of    *)
(* all lengths, load, compare every query and a second save; then every outcome *)
(* of the protocol model forced on the real code: the file or the marker cannot *)
(* be opened, the disk is full after L bytes, the process is killed there.       *)
(***************************************************************************)
EXTENDS Fam
Kinds(F) == IF F.nd THEN <<"dR", "nd", "hyp", "hypnd">> ELSE <<"dR", "hyp">>
IsNDk(k) == k \in {"nd", "hypnd"}
Name(len) == FoldLeft(LAMBDA a, i : a \o (CASE i % 5 = 0 -> "_" [] i % 5 = 1 -> "f" [] i % 5 = 2 -> "a" [] i % 5 = 3 -> "." [] OTHER -> "x"), "", [i \in 1..len |-> i])
Lens == <<1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 31, 64, 120, 200>>
Queries(F, kind, id, x) ==
  LET us == [k \in 1..6 |-> RndMon(<<Seed, x, k, 2>>, F.n + 1, F.d * (1 + Rnd(<<Seed, x, k, 3>>, 6)), 1)] IN
  << [op |-> "mtb", id |-> id, us |-> us], [op |-> "final", id |-> id, k |-> F.n], [op |-> "solveJ", id |-> id, level |-> TopJ(F.n, F.d)],
     [op |-> "matJ", id |-> id, level |-> F.d + 1] >>
  \o (IF IsNDk(kind) THEN << [op |-> "mtb", id |-> id, nd |-> 1, us |-> us], [op |-> "redND", id |-> id, u |-> us[1], v |-> RndEl(<<Seed, x, 5>>, Tuples(F.n + 1, F.d))],
                             [op |-> "solveND", id |-> id, level |-> F.d] >> ELSE <<>>)
  \o (IF kind \in {"hyp", "hypnd"} /\ F.n < 3 /\ F.p < 14 /\ F.k < 9 THEN << [op |-> "frob", id |-> id, how |-> "JZZ", coord |-> 0, N |-> 1], [op |-> "fpow", id |-> id, power |-> 2] >> ELSE <<>>)
Roundtrip(x, kind) ==
  LET F == FamAt(x) nm == Name(RndEl(<<Seed, x, 7>>, Lens)) warm == Rnd(<<Seed, x, 8>>, 2) = 1
      how == IF F.k = 1 \/ F.style = "naive" THEN RndEl(<<Seed, x, 9>>, <<"map", "mapbar">>) ELSE "map"
      other == Name(RndEl(<<Seed, x, 10>>, Lens)) \o "2" IN
  F @@ [kind |-> kind, part |-> "round", cmds |-> << CtxCmd(F), [NewCmd(F, 1, kind, "map") EXCEPT !.how = how] @@ [verbose |-> Rnd(<<Seed, x, 11>>, 2), save_memory |-> Rnd(<<Seed, x, 12>>, 2)] >>
     \o (IF warm THEN Queries(F, kind, 1, x) ELSE <<>>)
     \o << [op |-> "save", id |-> 1, file |-> nm], NewCmd(F, 2, kind, "file") @@ [file |-> nm] >>
     \o Queries(F, kind, 2, x) \o (IF warm THEN <<>> ELSE Queries(F, kind, 1, x))
     \o << [op |-> "save", id |-> 2, file |-> other], [op |-> "samefile", id |-> 1, file |-> nm, other |-> other],
           \* overwriting an existing file, also through a name with a path
           [op |-> "save", id |-> 2, file |-> nm], [op |-> "samefile", id |-> 1, file |-> nm, other |-> other] >> ]
\* faults
Limits == <<0, 1, 2, 5, 20, 37, 60, 100, 150, 511, 512, 1023, 4095, 4096, 8191, 8192, 20000, 100000>>
Faults(x, kind) ==
  LET F == FamAt(x) nm == Name(4 + Rnd(<<Seed, x, 13>>, 20)) IN
  F @@ [kind |-> kind, part |-> "fault", good |-> "good", cmds |-> << CtxCmd(F), NewCmd(F, 1, kind, "map"), [op |-> "save", id |-> 1, file |-> "good"] >>
     \o FlattenSeq([k \in 1..Len(Limits) |-> FlattenSeq([m \in 1..2 |->
          LET f == nm \o ToString(k) \o (IF m = 1 THEN "k" ELSE "f") IN
          << [op |-> "crashsave", id |-> 1, file |-> f, limit |-> Limits[k], mode |-> IF m = 1 THEN "kill" ELSE "fail"], [op |-> "samefile", id |-> 1, file |-> f, other |-> "good"] >>])])
     \* the same file again: an earlier complete copy, overwritten by an interrupted save
     \o << [op |-> "save", id |-> 1, file |-> "again"], [op |-> "crashsave", id |-> 1, file |-> "again", limit |-> 30, mode |-> "kill"], [op |-> "samefile", id |-> 1, file |-> "again", other |-> "good"],
           [op |-> "save", id |-> 1, file |-> "again"], [op |-> "samefile", id |-> 1, file |-> "again", other |-> "good"] >>
     \* not openable: no such directory, the file is a directory, the marker is a directory
     \o << [op |-> "mkdir", id |-> 1, file |-> "dir"], [op |-> "mkdir", id |-> 1, file |-> "m.swp"],
           [op |-> "save", id |-> 1, file |-> "nodir/x", refused |-> 1], [op |-> "save", id |-> 1, file |-> "dir", refused |-> 1], [op |-> "save", id |-> 1, file |-> "m", refused |-> 1],
           NewCmd(F, 3, kind, "file") @@ [file |-> "does-not-exist", must |-> "die"] >> ]
SessFor(x) == LET K == Kinds(FamAt(x)) IN
  [j \in 1..Len(K) |-> Roundtrip(x, K[j])] \o (IF FamList[x][1] = 3 \/ (~Thorough /\ x % 3 # 0) THEN <<>> ELSE [j \in 1..Len(K) |-> Faults(x, K[j])])
Use == SelectSeq([i \in 1..NFam |-> i], LAMBDA i : Thorough \/ FamList[i][1] < 3 \/ i % 2 = 0)
Gen(x) == FlattenSeq([i \in 1..Len(Use) |-> SessFor(Use[i])])
ASSUME Mode = "gen" => ndJsonSerialize(IOEnv.OUTFILE, Gen(0))

Ok(a) == [ok |-> TRUE, why |-> "ok", st |-> a]
Bad(why) == [ok |-> FALSE, why |-> why, st |-> 0]
NoZero(f) == {f[i] : i \in {j \in 1..Len(f) : ~BIsZero(f[j][2])}}
SameDump(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A k \in DOMAIN a : IF k \in {"f", "fbar"} THEN NoZero(a[k]) = NoZero(b[k]) ELSE a[k] = b[k]
\* what identifies a query
Key(e) == <<e.op, IF "nd" \in DOMAIN e THEN e.nd ELSE 0>>
\* powers of f may carry explicit zero coefficients or not, depending on how f was given
Answer(e) == IF e.op = "fpow" THEN [i \in 1..Len(e.res) |-> NoZero(e.res[i])] ELSE e.res
Names(files) == {files[i][1] : i \in 1..Len(files)}
Step(sess, a, e) ==
  IF e.op = "new" THEN
    IF "must" \in DOMAIN e THEN (IF "died" \in DOMAIN e /\ e.died = "abort" THEN Ok([a EXCEPT !.over = TRUE]) ELSE Bad("loading a file that does not exist was not refused"))
    ELSE IF "died" \in DOMAIN e THEN Bad("new/" \o e.how \o " did not return: " \o e.died)
    ELSE IF e.how = "file" THEN (IF SameDump(a.dump, e.res) THEN Ok(a) ELSE Bad("the loaded object differs from the saved one"))
    ELSE Ok([a EXCEPT !.dump = e.res])
  ELSE IF "died" \in DOMAIN e THEN Bad(e.op \o " did not return: " \o e.died)
  ELSE IF e.op = "save" THEN
    IF "refused" \in DOMAIN e THEN (IF e.res = FALSE THEN Ok(a) ELSE Bad("save reported success although a file could not be opened"))
    ELSE IF e.res # TRUE THEN Bad("save failed")
    ELSE IF e.file \notin Names(e.files) THEN Bad("save left no file of this name")
    ELSE IF e.file \o ".swp" \in Names(e.files) THEN Bad("the marker is still there after a successful save") ELSE Ok(a)
  ELSE IF e.op = "crashsave" THEN Ok([a EXCEPT !.crash = e])
  ELSE IF e.op = "samefile" THEN
    IF sess.part = "round" \/ a.crash.op = "none" THEN (IF e.res THEN Ok(a) ELSE Bad("a second save of the loaded object has another content"))
    ELSE LET c == a.crash marked == c.file \o ".swp" \in Names(c.files)
             b == [a EXCEPT !.crash = [op |-> "none"]] IN
         IF c.file # e.file THEN Ok(b)
         ELSE IF c.res = "true" /\ (~e.res \/ marked) THEN Bad("save reported success for an incomplete file")
         ELSE IF c.res = "died" /\ ~e.res /\ ~marked THEN Bad("an interrupted save left an incomplete file without marker")
         ELSE IF c.res \notin {"true", "false", "died"} \/ (c.mode = "fail" /\ c.res = "died") THEN Bad("save did not return when the disk was full") ELSE Ok(b)
  ELSE IF "id" \in DOMAIN e /\ "res" \in DOMAIN e /\ e.op \notin {"mkdir"} THEN
    \* a query: the same answer from both objects
    IF Key(e) \in DOMAIN a.ans THEN (IF a.ans[Key(e)] = Answer(e) THEN Ok(a) ELSE Bad(e.op \o ": the loaded object answers differently"))
    ELSE Ok([a EXCEPT !.ans = [k \in DOMAIN a.ans \cup {Key(e)} |-> IF k = Key(e) THEN Answer(e) ELSE a.ans[k]]])
  ELSE Ok(a)
InitSt(sess) == [dump |-> <<>>, ans |-> <<>>, crash |-> [op |-> "none"], over |-> FALSE]
Final(sess, a) == <<TRUE, "ok">>
VARIABLES s, l, st, verdict
R == INSTANCE TraceRun
TInit == R!TInit
TNext == R!TNext
=============================================================================
