---------------------------- MODULE SaveProtocol ----------------------------
(***************************************************************************)
(* The protocol of save: create the marker, truncate the file, write the       *)
(* chunks, close, remove the marker, report.  The environment may refuse to     *)
(* open either file, refuse to store more than Limit chunks (a full disk), or    *)
(* stop the process at any point.  Somebody who finds the file with no marker    *)
(* next to it, and was not told of a failure, must find it complete.             *)
(* Honest is the protocol of the repository; the other two variants are what the *)
(* repository did before it was repaired and must be refuted (Buggy = TRUE).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Chunks, ChecksWrites, ChecksMarker
VARIABLES pc, marker, file, limit, openF, openM, ret, alive, failed
vars == <<pc, marker, file, limit, openF, openM, ret, alive, failed>>
\* file: -1 absent or the number of chunks in it; limit: how many chunks can be stored
Init == /\ pc = "marker" /\ marker = FALSE /\ file \in {-1, Chunks} /\ limit \in 0..Chunks /\ openF \in BOOLEAN /\ openM \in BOOLEAN
        /\ ret = "none" /\ alive = TRUE /\ failed = FALSE
Crash == /\ alive /\ pc # "done" /\ alive' = FALSE /\ UNCHANGED <<pc, marker, file, limit, openF, openM, ret, failed>>
Do == /\ alive /\ UNCHANGED <<limit, openF, openM, alive>>
      /\ \/ /\ pc = "marker" /\ marker' = openM /\ pc' = "open" /\ UNCHANGED <<file, ret, failed>>
         \/ /\ pc = "open" /\ file' = (IF openF THEN 0 ELSE file) /\ UNCHANGED <<marker, failed>>
            /\ IF openF /\ (openM \/ ~ChecksMarker) THEN pc' = "write" /\ ret' = ret ELSE pc' = "done" /\ ret' = "false"
         \/ /\ pc = "write" /\ UNCHANGED <<marker, ret>>
            /\ IF file < Chunks /\ ~failed THEN (IF file < limit THEN file' = file + 1 /\ failed' = failed ELSE file' = file /\ failed' = TRUE) /\ pc' = pc
               ELSE pc' = "close" /\ UNCHANGED <<file, failed>>
         \/ /\ pc = "close" /\ UNCHANGED <<file, failed>>
            /\ IF failed /\ ChecksWrites THEN pc' = "done" /\ ret' = "false" /\ marker' = marker
               ELSE pc' = "remove" /\ ret' = ret /\ marker' = marker
         \/ /\ pc = "remove" /\ marker' = FALSE /\ pc' = "done" /\ ret' = "true" /\ UNCHANGED <<file, failed>>
Next == Do \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Do)
TypeOK == file \in -1..Chunks /\ ret \in {"none", "true", "false"}
\* what an observer sees once the process is gone or has returned
Over == ~alive \/ pc = "done"
Visible == Over /\ file \in 0..(Chunks - 1) => marker \/ ret = "false"
TrueMeansComplete == ret = "true" => file = Chunks /\ ~marker
Terminates == <>(~alive \/ pc = "done")
\* the refutations: TLC must find these false for the two earlier variants
=============================================================================
