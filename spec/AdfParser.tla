----------------------------- MODULE AdfParser -----------------------------
(* The parser as a state machine: it walks a raw document with a stack of    *)
(* elements under construction, skips unsupported elements with a warning    *)
(* when warnings are on, and raises at the first malformed element.          *)
(*                                                                           *)
(* Checked on every document of a small scope:                               *)
(*   the machine computes the denotation Tree, the warnings Skipped, and an  *)
(*   outcome of Outcomes;  skipping is the same as removing beforehand;      *)
(*   unknown fields do not matter;  Raw is a right inverse of Tree.          *)
EXTENDS AdfSmall

CONSTANTS PROPS, SIZE

VARIABLES doc, warnOn, stack, warns, out
vars == <<doc, warnOn, stack, warns, out>>

Docs == UNION {Family(p, SIZE) : p \in PROPS}

Frame(raw, cat) == [raw |-> raw, cat |-> cat, i |-> 0, j |-> 0, c |-> <<>>, m |-> <<>>]
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
KindT == Kind(Top.raw, Top.cat)
Kids(f) == IF Kind(f.raw, f.cat).content # "NONE" /\ f.raw.cp = "list" THEN f.raw.c ELSE <<>>
Mks(f)  == IF Kind(f.raw, f.cat).marks # "NONE" /\ f.raw.mp = "list" THEN f.raw.m ELSE <<>>

Init == /\ doc \in Docs
        /\ warnOn \in BOOLEAN
        /\ stack = <<>>
        /\ warns = <<>>
        /\ out = [st |-> "new", tree |-> <<>>]

Begin == /\ out.st = "new"
         /\ stack' = <<Frame(doc, "node")>>
         /\ out' = [st |-> "running", tree |-> <<>>]
         /\ UNCHANGED <<doc, warnOn, warns>>
Ended == out.st \notin {"new", "running"}

Running == out.st = "running"
Raise(st) == /\ out' = [st |-> st, tree |-> <<>>]
             /\ stack' = <<>>
             /\ UNCHANGED <<doc, warnOn, warns>>
Warn(raw, cat) == warns' = IF warnOn THEN Append(warns, <<Str(raw.t), cat>>) ELSE warns
SetTop(f) == stack' = Append(Rest, f)

(* Look at the next child or mark of the element on top. *)
Visit(x, cat, next) ==
    IF ~Typed(x) THEN Raise("err")
    ELSE IF ~Supported(x, cat)
    THEN /\ Warn(x, cat) /\ SetTop(next) /\ UNCHANGED <<doc, warnOn, out>>
    ELSE /\ stack' = Append(Append(Rest, next), Frame(x, cat))
         /\ UNCHANGED <<doc, warnOn, warns, out>>
NextChild == /\ Running /\ Top.i < Len(Kids(Top))
             /\ Visit(Kids(Top)[Top.i + 1], "node", [Top EXCEPT !.i = @ + 1])
NextMark  == /\ Running /\ Top.i = Len(Kids(Top)) /\ Top.j < Len(Mks(Top))
             /\ Visit(Mks(Top)[Top.j + 1], "mark", [Top EXCEPT !.j = @ + 1])
Complete  == Running /\ Top.i = Len(Kids(Top)) /\ Top.j = Len(Mks(Top))
Malformed == Complete /\ MissingOwn(Top.raw, KindT) /\ Raise("param")
Built(f) ==
    LET k == Kind(f.raw, f.cat)
        hasA == k.attrs # "NONE" /\ f.raw.ap = "obj"
    IN  [cls |-> k.cls, t |-> f.raw.t, f |-> OwnFields(f.raw, k),
         ap |-> IF k.attrs = "NONE" THEN "-" ELSE f.raw.ap,
         acls |-> IF hasA THEN k.acls ELSE "-",
         a |-> IF hasA THEN Only(f.raw.a, k.areq \cup k.aopt) ELSE <<>>,
         cp |-> IF k.content = "NONE" THEN "-" ELSE f.raw.cp, c |-> f.c,
         mp |-> IF k.marks = "NONE" THEN "-" ELSE f.raw.mp, m |-> f.m]
Build == /\ Complete /\ ~MissingOwn(Top.raw, KindT)
         /\ LET o == Built(Top)
                up == Rest[Len(Rest)]
            IN  IF Rest = <<>> THEN out' = [st |-> "ok", tree |-> o] /\ stack' = <<>>
                ELSE /\ out' = out
                     /\ stack' = Append(SubSeq(Rest, 1, Len(Rest) - 1),
                            IF Top.cat = "node" THEN [up EXCEPT !.c = Append(@, o)]
                            ELSE [up EXCEPT !.m = Append(@, o)])
         /\ UNCHANGED <<doc, warnOn, warns>>
Done == Ended /\ UNCHANGED vars

Next == Begin \/ NextChild \/ NextMark \/ Malformed \/ Build \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ NextChild \/ NextMark \/ Malformed \/ Build)

---------------------------------------------------------------------------
(* The machine is the denotation. *)
Outcome == Ended => out.st \in Outcomes(doc, "node")
Denotes == out.st = "ok" => out.tree = Tree(doc, "node")
Warned == /\ ~warnOn => warns = <<>>
          /\ warnOn /\ out.st = "ok" =>
                warns \in {Skipped(doc, "node", FALSE), Skipped(doc, "node", TRUE)}
          /\ warnOn /\ out.st = "ok" =>
                Len(warns) = Len(Skipped(doc, "node", FALSE))

(* Laws of the denotation, on every document of the scope. *)
Laws == warnOn /\ stack = <<Frame(doc, "node")>> =>
    /\ Outcomes(Prune(doc, "node"), "node") = Outcomes(doc, "node")          \* C02
    /\ Outcomes(Known(doc, "node"), "node") = Outcomes(doc, "node")          \* C05
    /\ Outcomes(doc, "node") = {"ok"} =>
        LET t == Tree(doc, "node")
        IN  /\ Tree(Prune(doc, "node"), "node") = t                          \* C02
            /\ Skipped(Prune(doc, "node"), "node", FALSE) = <<>>             \* C03
            /\ Tree(Known(doc, "node"), "node") = t                          \* C05
            /\ Raw(t) = Prune(Known(doc, "node"), "node")                    \* C06
            /\ Tree(Raw(t), "node") = t                                      \* C06
            /\ Raw(Tree(Raw(t), "node")) = Raw(t)                            \* C06
            /\ WellShaped(doc, "node")
Terminates == <>Ended
=============================================================================
