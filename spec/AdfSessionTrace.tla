-------------------------- MODULE AdfSessionTrace --------------------------
(* Trace validation of whole histories: the log of a program that did the    *)
(* operations of AdfSession on the real library, many histories one after    *)
(* another ("fresh" starts the next one), with several threads in some.      *)
(*                                                                           *)
(* Memo gives for each document the digest of what the first call in a       *)
(* fresh process returned.  Every later result must be the one that the      *)
(* specification names.                                                      *)
EXTENDS AdfSession, Json, IOUtils

TraceLog == JsonDeserialize(IOEnv.TRACE)
Memo == JsonDeserialize(IOEnv.MEMO)
Want(name) == IF name \in DOMAIN Memo THEN Memo[name] ELSE name

VARIABLES l, inflight    \* thread -> name of the value its running call returns
vars == <<svars, l, inflight>>

Reset == /\ heap' = [c \in Cells |-> "free"]
         /\ obj' = [s \in Slots |-> None]
         /\ inp' = [s \in Slots |-> None]
         /\ outp' = [s \in Slots |-> None]
         /\ held' = [s \in Slots |-> "none"]
         /\ warnOn' = TRUE /\ res' = "start"
         /\ inflight' = [t \in 1..8 |-> "idle"]

Report(e, v) == IF v = {} THEN TRUE ELSE PrintT(<<"FAIL", e.id, v>>)
Init == SInit /\ l = 1 /\ inflight = [t \in 1..8 |-> "idle"]
Next ==
    /\ l <= Len(TraceLog)
    /\ LET e == TraceLog[l]
       IN  CASE e.op = "fresh" -> Reset
             [] e.op = "begin" -> /\ inflight[e.s] = "idle"
                                  /\ inflight' = [inflight EXCEPT ![e.s] = e.what]
                                  /\ UNCHANGED svars
             [] e.op = "end"   -> /\ inflight[e.s] # "idle"
                                  /\ Report(e, IF e.res = Want(inflight[e.s]) THEN {}
                                               ELSE {"thread-result-" \o e.kind})
                                  /\ inflight' = [inflight EXCEPT ![e.s] = "idle"]
                                  /\ UNCHANGED svars
             [] OTHER -> /\ Op(e.op, e.s, e.d)
                         /\ Report(e, (IF e.res = Want(res') THEN {} ELSE {"result-of-" \o e.op})
                                      \cup (IF e.same THEN {} ELSE {"input-unchanged"}))
                         /\ UNCHANGED inflight
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
