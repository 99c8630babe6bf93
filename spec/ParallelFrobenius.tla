-------------------------- MODULE ParallelFrobenius --------------------------
(***************************************************************************)
(* frob_matrix_J / frob_matrix_ND with several threads.  The columns 1..Cols are   *)
(* handed out dynamically.  A column reads table entries (Need[c]); an entry that    *)
(* is missing is made on the spot: a write to the shared map.  With more than one       *)
(* thread everything is computed beforehand.  Residue arithmetic needs the modulus        *)
(* in the context of the thread; a fresh thread has none.  Each column writes its own       *)
(* row of the result.                                                                          *)
(* Safety: no entry of the shared map is written while another thread reads or writes it,         *)
(* no column computes without its context, the rows are those of a sequential run, whatever          *)
(* the schedule; and all columns get done.                                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Cols, Precompute, Restore, OwnRow
Keys == 1..3
Need(c) == {k \in Keys : (c + k) % 3 # 0}
Value(c) == <<"col", c>>
VARIABLES pc, task, todo, queue, map, ctx, row, tmp
vars == <<pc, task, todo, queue, map, ctx, row, tmp>>
T == 1..Threads
Init == /\ pc = [t \in T |-> IF Threads > 1 /\ Precompute THEN <<"wait", 0>> ELSE <<"idle", 0>>]
        /\ task = [t \in T |-> 0] /\ todo = [t \in T |-> {}] /\ queue = 1..Cols
        /\ map = {} /\ ctx = [t \in T |-> t = 1] /\ row = [c \in 1..Cols |-> <<>>] /\ tmp = <<>>
\* the precomputation, by the first thread, before the others start
Pre == /\ Precompute /\ Threads > 1 /\ \A t \in T : pc[t] = <<"wait", 0>>
       /\ map' = Keys /\ pc' = [t \in T |-> <<"idle", 0>>] /\ UNCHANGED <<task, todo, queue, ctx, row, tmp>>
Take(t) == /\ pc[t] = <<"idle", 0>> /\ queue # {}
           /\ \E c \in queue : queue' = queue \ {c} /\ task' = [task EXCEPT ![t] = c] /\ todo' = [todo EXCEPT ![t] = Need(c)]
           /\ ctx' = [ctx EXCEPT ![t] = @ \/ Restore]
           /\ pc' = [pc EXCEPT ![t] = <<"run", 0>>] /\ UNCHANGED <<map, row, tmp>>
\* look up one entry: a read when it is there, the beginning of a write otherwise
Look(t) == /\ pc[t] = <<"run", 0>> /\ todo[t] # {}
           /\ \E k \in todo[t] : pc' = [pc EXCEPT ![t] = IF k \in map THEN <<"read", k>> ELSE <<"write", k>>]
           /\ UNCHANGED <<task, todo, queue, map, ctx, row, tmp>>
Used(t) == /\ pc[t] \in {"read", "write"} \X Keys
           /\ map' = map \cup {pc[t][2]} /\ todo' = [todo EXCEPT ![t] = @ \ {pc[t][2]}]
           /\ pc' = [pc EXCEPT ![t] = <<"run", 0>>] /\ UNCHANGED <<task, queue, ctx, row, tmp>>
\* the result goes to its own row (or, in the wrong variant, through a shared temporary)
Put(t) == /\ pc[t] = <<"run", 0>> /\ todo[t] = {}
          /\ IF OwnRow THEN row' = [row EXCEPT ![task[t]] = Value(task[t])] /\ pc' = [pc EXCEPT ![t] = <<"idle", 0>>] /\ UNCHANGED tmp
             ELSE tmp' = Value(task[t]) /\ pc' = [pc EXCEPT ![t] = <<"copy", 0>>] /\ UNCHANGED row
          /\ UNCHANGED <<task, todo, queue, map, ctx>>
Copy(t) == /\ pc[t] = <<"copy", 0>> /\ row' = [row EXCEPT ![task[t]] = tmp] /\ pc' = [pc EXCEPT ![t] = <<"idle", 0>>] /\ UNCHANGED <<task, todo, queue, map, ctx, tmp>>
Next == Pre \/ \E t \in T : Take(t) \/ Look(t) \/ Used(t) \/ Put(t) \/ Copy(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Busy(t, s) == pc[t] \in s \X Keys
\* std::map: a write anywhere in the map conflicts with every other access of it
NoRace == \A t, u \in T : t # u => ~(Busy(t, {"write"}) /\ Busy(u, {"read", "write"}))
HasContext == \A t \in T : pc[t] \in {<<"run", 0>>, <<"copy", 0>>} \/ Busy(t, {"read", "write"}) => ctx[t]
RowsRight == \A c \in 1..Cols : row[c] \in {<<>>, Value(c)}
NothingAdded == (Threads > 1 /\ Precompute /\ \E t \in T : pc[t] # <<"wait", 0>>) => map = Keys
Done == queue = {} /\ \A t \in T : pc[t] = <<"idle", 0>>
AllDone == <>(Done /\ \A c \in 1..Cols : row[c] = Value(c))
=============================================================================
