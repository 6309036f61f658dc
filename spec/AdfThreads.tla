----------------------------- MODULE AdfThreads -----------------------------
(* Two threads each handle a document of their own while sharing what the    *)
(* library remembers about classes (the fields of a class, looked up once).  *)
(* A scheduler lets one thread run at a time and may preempt it at most      *)
(* BOUND times.  With a PERIOD it preempts whenever a thread has done that   *)
(* many steps in a row, so the threads run in turns.                         *)
(*                                                                           *)
(* ATOMIC = TRUE: what is remembered is computed first and stored as a       *)
(* whole; then every schedule gives each thread the right result.            *)
(* ATOMIC = FALSE is the faulty library that stores it before it is          *)
(* complete.                                                                 *)
(*                                                                           *)
(* The schedules are printed and replayed into the real code: a segment      *)
(* <<t, n>> lets thread t run up to the n-th of its STEPS steps, which the   *)
(* harness scales to the lines or byte codes that the thread executes.       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS ATOMIC
Int1(s) == CHOOSE k \in 0..5000 : ToString(k) = s
CLASSES == Int1(IOEnv.CLASSES)
BOUND == Int1(IOEnv.BOUND)
PERIOD == Int1(IOEnv.PERIOD)
STEPS == 4 * CLASSES
T == {1, 2}
Other(t) == 3 - t

VARIABLES pc,      \* thread -> steps done
          known,   \* class -> "none" | "partial" | "full": what is remembered
          mine,    \* thread -> what it is about to use
          ok,      \* thread -> every class was seen complete
          cur, left, sched
vars == <<pc, known, mine, ok, cur, left, sched>>

Init == /\ pc = [t \in T |-> 0]
        /\ known = [c \in 1..CLASSES |-> "none"]
        /\ mine = [t \in T |-> "none"]
        /\ ok = [t \in T |-> TRUE]
        /\ cur \in T
        /\ left = BOUND
        /\ sched = <<>>

Class(t) == 1 + (pc[t] \div 4)
Step(t) ==
    LET c == Class(t)
    IN  /\ pc[t] < STEPS
        /\ pc' = [pc EXCEPT ![t] = @ + 1]
        /\ CASE pc[t] % 4 = 0 ->      \* look
                  mine' = [mine EXCEPT ![t] = known[c]] /\ UNCHANGED <<known, ok>>
             [] pc[t] % 4 = 1 ->      \* compute
                  IF mine[t] # "none" THEN UNCHANGED <<known, mine, ok>>
                  ELSE IF ATOMIC THEN mine' = [mine EXCEPT ![t] = "computed"] /\ UNCHANGED <<known, ok>>
                  ELSE /\ known' = [known EXCEPT ![c] = "partial"]
                       /\ mine' = [mine EXCEPT ![t] = "computed"] /\ UNCHANGED ok
             [] pc[t] % 4 = 2 ->      \* store
                  IF mine[t] # "computed" THEN UNCHANGED <<known, mine, ok>>
                  ELSE /\ known' = [known EXCEPT ![c] = "full"]
                       /\ mine' = [mine EXCEPT ![t] = "full"] /\ UNCHANGED ok
             [] OTHER ->              \* use
                  ok' = [ok EXCEPT ![t] = @ /\ mine[t] = "full"] /\ UNCHANGED <<known, mine>>
Before == IF Len(sched) < 2 THEN 0 ELSE sched[Len(sched) - 1][2]      \* steps of cur when it was preempted last
Due == PERIOD > 0 /\ pc[cur] - Before >= PERIOD /\ pc[Other(cur)] < STEPS
Run == ~Due /\ Step(cur) /\ UNCHANGED <<cur, left, sched>>
Preempt == /\ left > 0 /\ (PERIOD > 0 => Due) /\ 0 < pc[cur] /\ pc[cur] < STEPS /\ pc[Other(cur)] < STEPS
           /\ pc[cur] > Before          \* it ran since it was preempted last
           /\ sched' = Append(sched, <<cur, pc[cur]>>)
           /\ cur' = Other(cur) /\ left' = left - 1
           /\ UNCHANGED <<pc, known, mine, ok>>
HandOver == /\ pc[cur] = STEPS /\ pc[Other(cur)] < STEPS
            /\ sched' = Append(sched, <<cur, STEPS>>)
            /\ cur' = Other(cur)
            /\ UNCHANGED <<pc, known, mine, ok, left>>
Next == Run \/ Preempt \/ HandOver
Spec == Init /\ [][Next]_vars

AllDone == \A t \in T : pc[t] = STEPS
Complete == \A t \in T : ok[t]
Emit == AllDone => PrintT("SCHED " \o ToJson(sched))
=============================================================================
