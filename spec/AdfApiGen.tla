------------------------------ MODULE AdfApiGen ------------------------------
(* Samples (with -simulate) histories of a maintainer's work and prints them *)
(* for the replay on copies of the real package.                             *)
EXTENDS AdfApi, Json, IOUtils, Randomization

VARIABLES hist
vars == <<avars, hist>>
DEPTH == CHOOSE k \in 1..100 : ToString(k) = IOEnv.DEPTH
Rec(op, m, ds) == hist' = Append(hist, [op |-> op, m |-> m, ds |-> ds])
Defs == UNION {[1..n -> AllKinds] : n \in 0..MaxDefs}
(* e: edit, g: generate, i: import (also of an outdated public module) *)
Rhythm == <<"e", "e", "e", "g", "i", "e", "i", "g", "i", "g", "i", "x", "i", "g", "i">>
Phase == Rhythm[1 + (Len(hist) % Len(Rhythm))]

Init == AInit /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ CASE Phase = "e" -> \E m \in Modules : \E ds \in RandomSubset(6, Defs) : Write(m, ds) /\ Rec("write", m, ds)
             [] Phase = "x" -> \E m \in Modules : \/ (Delete(m) /\ Rec("delete", m, <<>>))
                                                  \/ (Break(m) /\ Rec("break", m, <<>>))
             [] Phase = "g" -> Generate /\ Rec("generate", "-", <<>>)
             [] OTHER -> Import /\ Rec("import", "-", <<>>)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = DEPTH => PrintT("HIST " \o ToJson(hist))
=============================================================================
