------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Generic conformance harness.  A trace file holds one JSON object per    *)
(* session: the events recorded from the real code.  Every session is an   *)
(* initial state; each step consumes one event and asks the specification  *)
(* (operator Step) whether the event is allowed in the abstract state st   *)
(* and what the next abstract state is.  Step returns [ok, why, st].       *)
(***************************************************************************)
EXTENDS Util, Json
CONSTANTS Step(_, _, _),  \* Step(session, st, event)
          Final(_, _),    \* Final(session, st): <<ok, why>> once all events are consumed
          InitSt(_)       \* initial abstract state of a session
VARIABLES s, l, st, verdict
vars == <<s, l, st, verdict>>
Reject(sid, i, why) == PrintT(<<"REJECT", sid, i, why>>)
TInit == /\ s \in 1..Len(Sessions) /\ l = 1 /\ verdict = "ok" /\ st = InitSt(Sessions[s])
TStep == /\ verdict = "ok" /\ l <= Len(Sessions[s].ev)
         /\ LET e == Sessions[s].ev[l] r == Step(Sessions[s], st, e) IN
              /\ st' = IF r.ok THEN r.st ELSE st
              /\ verdict' = IF r.ok THEN "ok" ELSE r.why
              /\ (IF r.ok THEN TRUE ELSE Reject(Sessions[s].sid, l, r.why))
         /\ l' = l + 1 /\ s' = s
TEnd == /\ verdict = "ok" /\ l = Len(Sessions[s].ev) + 1
        /\ LET r == Final(Sessions[s], st) IN
              /\ verdict' = IF r[1] THEN "accepted" ELSE r[2]
              /\ (IF r[1] THEN TRUE ELSE Reject(Sessions[s].sid, l, r[2]))
        /\ l' = l + 1 /\ UNCHANGED <<s, st>>
TNext == TStep \/ TEnd
Conforms == verdict \in {"ok", "accepted"}
=============================================================================
