---------------------------- MODULE AdfApiTrace ----------------------------
(* Trace validation of AdfApi: the log of a maintainer's work on copies of   *)
(* the real package.                                                         *)
EXTENDS AdfApi, Json, IOUtils

TraceLog == JsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          text      \* digest of the text generated since the last edit
vars == <<avars, l, text>>

Report(e, v) == IF v = {} THEN TRUE ELSE PrintT(<<"FAIL", e.id, v>>)
C(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in 1..Len(s)}
(* The name of a definition, as the harness writes it into the module. *)
NameOf(x) == x[1] \o ":" \o ToString(x[2]) \o ":" \o x[3]

Reset == mods' = [m \in Modules |-> Absent] /\ api' = {} /\ res' = "start" /\ text' = "none"
Init == AInit /\ l = 1 /\ text = "none"
Next ==
    /\ l <= Len(TraceLog)
    /\ LET e == TraceLog[l]
       IN  CASE e.op = "fresh" -> Reset
             [] e.op = "write" -> Write(e.m, e.ds) /\ text' = "none"
             [] e.op = "delete" -> Delete(e.m) /\ text' = "none"
             [] e.op = "break" -> Break(e.m) /\ text' = "none"
             [] e.op = "generate" ->
                    /\ Generate
                    /\ Report(e, C("generator-runs", e.st = "ok")
                                 \cup C("same-text-again", text \in {"none", e.text}))
                    /\ text' = e.text
             [] e.op = "import" ->
                    /\ Import
                    /\ Report(e, IF res' = "fails" THEN {}      \* an outdated public module
                                 ELSE C("imports", e.st = "ok")
                                      \cup (IF e.st # "ok" THEN {} ELSE
                                            C("new-names", SetOf(e.new) = {NameOf(x) : x \in api})
                                            \cup C("old-names", e.gone = <<>> /\ e.extra = <<>>)
                                            \cup C("own-objects", e.foreign = <<>>)))
                    /\ UNCHANGED text
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
