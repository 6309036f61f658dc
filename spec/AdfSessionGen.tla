--------------------------- MODULE AdfSessionGen ---------------------------
(* Enumerates (or samples, with -simulate) the histories of AdfSession over  *)
(* the operations OPS and prints them for the replay into the real code.     *)
EXTENDS AdfSession, Json, IOUtils

VARIABLES hist
vars == <<svars, hist>>
OPS == IF IOEnv.PROP = "cut"
       THEN {"parse", "again", "ser", "strict", "tolerant", "look", "parts", "drop", "once", "use",
             "cutonce", "cutuse", "fail", "back", "mutin", "mutout"}
       ELSE IF IOEnv.PROP = "C08"
       THEN {"parse", "again", "back", "ser", "strict", "look", "parts", "mutin", "mutout",
             "assign", "drop", "once", "fail"}
       ELSE {"parse", "again", "ser", "strict", "tolerant", "look", "parts", "drop", "once",
             "fail", "on", "off"}
DEPTH == CHOOSE k \in 1..2000 : ToString(k) = IOEnv.DEPTH

Args(op) ==
    CASE op = "parse" -> {<<s, d>> : s \in Slots, d \in Docs}
      [] op \in {"again", "back"} -> {<<s, s2>> : s \in Slots, s2 \in Slots}
      [] op \in {"once", "cutonce"} -> {<<0, d>> : d \in Docs}
      [] op = "fail" -> {<<0, d>> : d \in BadDocs}
      [] op \in {"on", "off"} -> {<<0, 0>>}
      [] OTHER -> {<<s, 0>> : s \in Slots}
(* A flip that does nothing, or a second look at once, is left out. *)
Useful(op) == /\ op = "on" => ~warnOn
              /\ op = "off" => warnOn
              /\ hist # <<>> => ~(op = "look" /\ hist[Len(hist)].op = "look")

Init == SInit /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E op \in OPS : Useful(op) /\ \E a \in Args(op) :
            /\ Op(op, a[1], a[2])
            /\ hist' = Append(hist, [op |-> op, s |-> a[1], d |-> a[2]])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = DEPTH => PrintT("HIST " \o ToJson(hist))
=============================================================================
