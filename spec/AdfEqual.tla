------------------------------ MODULE AdfEqual ------------------------------
(* Equality of two documents as a machine: it walks both trees in step and   *)
(* stops at the first place where they differ.  Checked on pairs of small    *)
(* documents: the verdict is whether they denote the same tree, which is     *)
(* whether they serialize alike; unsupported elements, unknown fields and    *)
(* the way a tree was obtained (parsed, or parsed from its serialized form)  *)
(* play no part.                                                             *)
EXTENDS AdfSmall

CONSTANTS PROPS, SIZE

VARIABLES a, b, todo, verdict
vars == <<a, b, todo, verdict>>

Docs == {d \in UNION {Family(p, SIZE) : p \in PROPS} : Outcomes(d, "node") = {"ok"}}
Own(n) == <<n.cls, n.t, n.f, n.ap, n.acls, n.a, n.cp, Len(n.c), n.mp, Len(n.m)>>

Init == /\ a \in Docs /\ b \in Docs
        /\ todo = <<<<Tree(a, "node"), Tree(b, "node")>>>>
        /\ verdict = "open"
Pairs(x, y) == [i \in 1..Len(x) |-> <<x[i], y[i]>>]
Compare == /\ verdict = "open" /\ todo # <<>>
           /\ LET p == todo[1]
              IN  IF Own(p[1]) # Own(p[2])
                  THEN verdict' = "unequal" /\ todo' = <<>>
                  ELSE /\ todo' = Tail(todo) \o Pairs(p[1].c, p[2].c) \o Pairs(p[1].m, p[2].m)
                       /\ verdict' = verdict
           /\ UNCHANGED <<a, b>>
Finish == verdict = "open" /\ todo = <<>> /\ verdict' = "equal" /\ UNCHANGED <<a, b, todo>>
Done == verdict # "open" /\ UNCHANGED vars
Next == Compare \/ Finish \/ Done
Spec == Init /\ [][Next]_vars

Meaning == verdict # "open" =>
    /\ (verdict = "equal") = (Tree(a, "node") = Tree(b, "node"))
    /\ (verdict = "equal") = (Raw(Tree(a, "node")) = Raw(Tree(b, "node")))
    /\ (verdict = "equal") = (Prune(Known(a, "node"), "node") = Prune(Known(b, "node"), "node"))
=============================================================================
