---------------------------- MODULE AdfRenderer ----------------------------
(* Rendering as a state machine: a stack of nodes being rendered, children   *)
(* first.  A leaf that cannot be rendered raises; strict rendering lets the  *)
(* error pass through every enclosing container, tolerant rendering drops    *)
(* the child in the innermost container and goes on with its sibling.        *)
(*                                                                           *)
(* Checked on every document of a small scope: the machine computes Render   *)
(* in both modes, and the laws of containment, agreement, visible text, line *)
(* structure hold of it.                                                     *)
EXTENDS AdfRender, AdfSmall

CONSTANTS PROPS, SIZE

VARIABLES doc, mode, stack, out
vars == <<doc, mode, stack, out>>

Docs == {d \in UNION {Family(p, SIZE) : p \in PROPS} : Outcomes(d, "node") = {"ok"}}

Frame(n, lv, inl) == [n |-> n, i |-> 0, outs |-> <<>>, lv |-> lv, inl |-> inl]
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)

Init == /\ doc \in {Tree(d, "node") : d \in Docs}
        /\ mode \in {"s", "g"}
        /\ stack = <<>>
        /\ out = [st |-> "new", md |-> ""]

Begin == /\ out.st = "new"
         /\ stack' = <<Frame(doc, 0, FALSE)>>
         /\ out' = [st |-> "running", md |-> ""]
         /\ UNCHANGED <<doc, mode>>

Running == out.st = "running"

(* What the caller of a render call gets to see. *)
Return(r) ==
    IF Rest = <<>> THEN stack' = <<>> /\ out' = r
    ELSE LET up == Rest[Len(Rest)]
         IN  /\ out' = out
             /\ stack' = Append(SubSeq(Rest, 1, Len(Rest) - 1),
                                [up EXCEPT !.i = @ + 1, !.outs = Append(@, r)])

Enter == /\ Running /\ Top.i < Len(Rendered(Top.n))
         /\ LET k == Top.i + 1
            IN  stack' = Append(stack, Frame(Top.n.c[k], KidLv(Top.n, k, Top.lv, Top.inl),
                                             KidInl(Top.n, k)))
         /\ UNCHANGED <<doc, mode, out>>
AtEnd == Running /\ Top.i = Len(Rendered(Top.n))
(* Compose of a silent node or a leaf does not look at outs. *)
Result == Compose(Top.n, Top.outs, Top.lv, Top.inl, mode)
Close   == /\ AtEnd /\ Result.st = "ok" /\ Return(Result) /\ UNCHANGED <<doc, mode>>
(* Tolerant: the failure is an outcome the container drops. *)
Contain == /\ AtEnd /\ Result.st # "ok" /\ (mode = "g" \/ Rest = <<>>) /\ Return(Result)
           /\ UNCHANGED <<doc, mode>>
(* Strict: the failure ends the enclosing calls as well, without going on.   *)
Propagate == /\ AtEnd /\ Result.st # "ok" /\ mode = "s" /\ Rest # <<>>
             /\ stack' = <<>> /\ out' = Result /\ UNCHANGED <<doc, mode>>
Done == ~Running /\ out.st # "new" /\ UNCHANGED vars

Next == Begin \/ Enter \/ Close \/ Contain \/ Propagate \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Enter \/ Close \/ Contain \/ Propagate)

---------------------------------------------------------------------------
Denotes == ~Running /\ out.st # "new" => out = Render(doc, mode)

(* The laws are looked at once per document. *)
Start == mode = "s" /\ stack = <<Frame(doc, 0, FALSE)>>
RECURSIVE All(_)
All(n) == {n} \cup UNION {All(n.c[i]) : i \in 1..Len(n.c)}
Strict == Render(doc, "s")
Tolerant == Render(doc, "g")

Contained == Start => /\ Tolerant.st = "ok"
                      /\ Tolerant = Render(WithoutFailing(doc), "s")          \* C18
                      /\ ~AnyFails(WithoutFailing(doc))
FailFast == Start => /\ (Strict.st = "ok") = ~AnyFails(doc)                    \* C19, C24
                     /\ Strict.st = "ok" => Strict = Tolerant
WordsIn(s) ==     \* the words "Zw<number>k" of a text, in order
    LET ps == SelectSeq(Lines(Replace(s, "Zw", "\nZw")), LAMBDA x : StartsWith(x, "Zw"))
    IN  [i \in 1..Len(ps) |-> Upto(ps[i], CHOOSE j \in 1..Len(ps[i]) : Ch(ps[i], j) = "k"
                                             /\ \A h \in 1..(j - 1) : Ch(ps[i], h) # "k")]
TextKept == Start /\ Strict.st = "ok" =>                                       \* C10
    WordsIn(Strict.md) = WordsIn(Concat(Visible(doc)))
LineStructure == Start => \A n \in All(doc) :
    LET r == Render(n, "s")
        ls == Lines(r.md)
        t == Type(n)
    IN  r.st = "ok" =>
        /\ t \in {"doc", "expand", "nestedExpand"} => ~Has(r.md, "\n\n\n")      \* C16
        /\ t \in {"tableRow", "tableCell", "tableHeader"} => Len(ls) = 1        \* C14
        /\ t = "table" => Len(ls) = (IF n.c = <<>> THEN 1 ELSE Len(n.c)) +
                Cardinality({i \in 1..Len(n.c) : n.c[i].c # <<>> /\ Type(n.c[i].c[1]) = "tableHeader"})
        /\ t \in {"blockquote", "panel"} /\ r.md # "\n" =>                      \* C15
              /\ ls[Len(ls)] = ""
              /\ \A i \in 1..(Len(ls) - 2) : StartsWith(ls[i], "> ")
        /\ t = "decisionItem" => r.md = "" \/ \A i \in 1..Len(ls) : StartsWith(ls[i], ">")
        /\ t = "codeBlock" => /\ StartsWith(r.md, "```") /\ EndsWith(r.md, "\n```") \* C17
                              /\ Has(r.md, "\n" \o Concat([i \in 1..Len(n.c) |-> Str(Get(n.c[i].f, "text"))]) \o "\n")
        /\ t = "heading" => StartsWith(r.md, "\n\n#") /\ EndsWith(r.md, "\n\n") \* C22
        /\ t = "paragraph" => EndsWith(r.md, "\n")
        /\ t \in ListT => \A i \in 1..Len(n.c) :                                \* C12
              \E j \in 1..Len(ls) : StartsWith(ls[j],
                  IF t = "bulletList" THEN "- " ELSE AddTo(StartNum(n, 0), i - 1) \o ". ")
        /\ t = "taskList" =>                                                    \* C13
              LET RECURSIVE tasks(_)
                  tasks(x) == IF Type(x) = "taskItem" THEN <<Get(x.a, "state")>>
                              ELSE FlattenSeq([i \in 1..Len(x.c) |-> tasks(x.c[i])])
                  boxes == SelectSeq(ls, LAMBDA y : StartsWith(LStripOf(y, {" "}), "- ["))
              IN  boxes # <<>> \/ tasks(n) # <<>> =>
                  [i \in 1..Len(boxes) |-> IF StartsWith(LStripOf(boxes[i], {" "}), "- [x] ") THEN "s:DONE" ELSE "s:TODO"]
                      = tasks(n)
Terminates == <>(stack = <<>> /\ out.st # "new")
=============================================================================
