------------------------------ MODULE AdfTrace ------------------------------
(* Trace validation of single public calls.                                  *)
(*                                                                           *)
(* The harness runs the real library and logs one event per document with    *)
(* the arguments and results of the public calls it made.  This module       *)
(* consumes the log and judges every event against the denotations of        *)
(* AdfDoc and AdfRender.  Verdicts are total: an event that is not explained *)
(* adds its failing clauses to bad and the rest of the log is still judged.  *)
(* POSTCONDITION Consumed states that the whole log was read.                *)
EXTENDS AdfRender, Json, IOUtils

TraceLog == JsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
ASSUME PrintT(<<"TRACE", PROP, Len(TraceLog)>>)
UNI == JsonDeserialize(IOEnv.UNICODE)
TWS == {UNI.ws[i] : i \in 1..Len(UNI.ws)}
TLB == {UNI.lb[i] : i \in 1..Len(UNI.lb)}

VARIABLES l,       \* next event
          bad      \* verdicts: <<event id, clause>>
vars == <<l, bad>>

C(name, holds) == IF holds THEN {} ELSE {name}

HasLB(s) == \E c \in TLB : Has(s, c)

---------------------------------------------------------------------------
(* Observed trees carry outcomes; Bare removes them. *)
RECURSIVE Bare(_)
Bare(n) == [cls |-> n.cls, t |-> n.t, f |-> n.f, ap |-> n.ap, acls |-> n.acls, a |-> n.a,
            cp |-> n.cp, c |-> [i \in 1..Len(n.c) |-> Bare(n.c[i])],
            mp |-> n.mp, m |-> [i \in 1..Len(n.m) |-> Bare(n.m[i])]]

RECURSIVE Nodes(_)
Nodes(n) == <<n>> \o FlattenSeq([i \in 1..Len(n.c) |-> Nodes(n.c[i])])

---------------------------------------------------------------------------
(* Parsing: C01 .. C07.                                                      *)
(* e.raw the input, e.cat its category, e.st the outcome, e.tree the tree.   *)
MustParse(e) == Outcomes(e.raw, e.cat) = {"ok"}

C01(e) ==
    IF ~MustParse(e) THEN {}
    ELSE IF e.st # "ok" THEN {"parses"}
    ELSE LET want == Tree(e.raw, e.cat)
         IN  IF Shape(want) # Shape(e.tree) THEN {"shape-and-order"}
             ELSE IF Classes(want) # Classes(e.tree) THEN {"classes"}
             ELSE C("field-values", want = e.tree)

C02(e) ==
    IF Prune(e.raw, e.cat) # e.raw2 THEN {"MACHINERY-twin"}
    ELSE IF e.st2 # "ok" \/ ~MustParse(e) THEN {}
    ELSE IF e.st # "ok" THEN {"skips-instead-of-failing"}
    ELSE LET want == Shape(Tree(e.raw, e.cat))
         IN  (IF Shape(e.tree2) = Shape(Tree(e.raw2, e.cat))
              THEN C("exactly-the-unsupported-are-gone", Shape(e.tree) = want) ELSE {})
             \cup C("same-as-if-removed", e.tree = e.tree2)

(* A warning is <<message, says node, says mark>>. *)
Explains(w, sk) ==
    /\ Len(w) = Len(sk)
    /\ \A i \in 1..Len(w) :
        /\ Has(w[i][1], sk[i][1])
        /\ IF sk[i][2] = "node" THEN w[i][2] ELSE w[i][3]
C03(e) ==
    IF ~MustParse(e) THEN {}
    ELSE LET k1 == Skipped(e.raw, e.cat, FALSE)
             k2 == Skipped(e.raw, e.cat, TRUE)
         IN  C("one-warning-per-skipped", Len(e.warns) = Len(k1))
             \cup C("warnings-name-the-skipped-in-order",
                    Len(e.warns) = Len(k1) => Explains(e.warns, k1) \/ Explains(e.warns, k2))
             \cup C("silent-when-off", e.warnsOff = <<>>)
             \cup C("setting-does-not-change-result", e.st = e.stOff /\ e.tree = e.treeOff)

C04(e) ==
    LET want == Outcomes(e.raw, e.cat)
    IN  C("outcome", e.st \in want)
        \cup C("unsupported-type-and-category",
               (want = {"unimpl"} /\ e.st = "unimpl") => S(e.ety) = e.raw.t /\ e.ecat = e.cat)

C05(e) ==
    IF Known(Prune(e.raw, e.cat), e.cat) # Known(Prune(e.raw2, e.cat), e.cat) THEN {"MACHINERY-twin"}
    ELSE IF e.st2 # "ok" THEN {}
    ELSE C("parses-all-the-same", e.st = "ok")
         \cup (IF e.st # "ok" THEN {} ELSE
               C("same-tree", e.tree = e.tree2) \cup C("same-serialized", e.ser = e.ser2)
               \cup C("same-markdown", e.md = e.md2))

C06(e) ==
    IF ~MustParse(e) \/ e.st # "ok" THEN {}
    ELSE C("serialized-is-the-input", e.ser = Raw(Tree(e.raw, e.cat)))
         \cup C("reparse-succeeds", e.st2 = "ok")
         \cup (IF e.st2 # "ok" THEN {} ELSE
               C("reparsed-equal", e.eq /\ e.tree2 = e.tree)
               \cup C("reserialized-identical", e.ser2 = e.ser))
         \cup C("constructed-serializes-alike", e.cst = "ok" /\ e.cser = e.ser)
         \cup C("constructed-equal", e.cst = "ok" => e.ceq)

C07(e) ==
    IF e.st # "ok" THEN {}
    ELSE C("serializes", e.serst = "ok")
         \cup C("json-values-only", e.alien = <<>>)
         \cup C("json-encodable", e.dumps)
         \cup C("constructed-json-values-only", e.calien = <<>>)
         \cup C("constructed-json-encodable", e.cdumps)

(* Equality.  In Python 1, 1.0 and True are equal, so these values do not     *)
(* tell two elements apart, alone or in lists and objects: Apart gives them   *)
(* one form.  Numbers with exponents have many forms and are left alone.      *)
Number(s) == Replace(Replace(Replace(Replace(s, "-0.0f", "0"), ".0f", ""), "true", "1"), "false", "0")
Apart(v) == CASE StartsWith(v, "j:") -> "j:" \o Number(v)
              [] StartsWith(v, "n:") -> v
              [] StartsWith(v, "b:") -> "n:" \o Number(From(v, 3))
              [] StartsWith(v, "f:") -> "n:" \o Number(From(v, 3) \o "f")
              [] OTHER -> v
Wild(v) == (StartsWith(v, "f:") \/ StartsWith(v, "j:")) /\ (Has(v, "e+") \/ Has(v, "e-") \/ Has(v, "inf") \/ Has(v, "nan"))
Tells(x, y) == \/ Len(x) # Len(y)
               \/ \E i \in 1..Len(x) : \/ x[i][1] # y[i][1]
                                       \/ ~Wild(x[i][2]) /\ ~Wild(y[i][2]) /\ Apart(x[i][2]) # Apart(y[i][2])
RECURSIVE Telling(_, _)
Telling(x, y) == \/ <<x.cls, x.t, x.ap, x.cp, x.mp, Len(x.c), Len(x.m)>> # <<y.cls, y.t, y.ap, y.cp, y.mp, Len(y.c), Len(y.m)>>
                 \/ Tells(x.f, y.f) \/ Tells(x.a, y.a)
                 \/ \E i \in 1..Len(x.c) : Telling(x.c[i], y.c[i])
                 \/ \E i \in 1..Len(x.m) : Telling(x.m[i], y.m[i])
All(bs, b) == \A i \in 1..Len(bs) : bs[i] = b
C25(e) ==
    IF ~MustParse(e) \/ e.st # "ok" THEN {}
    ELSE C("equal-to-no-other-thing", Len(e.others) = 6 /\ All(e.others, FALSE))
         \cup UNION {LET c == e.copies[i]
                     IN  C(c.how \o "-is-equal", c.st = "ok" /\ c.eq)
                         \cup C(c.how \o "-is-interchangeable",
                                c.st = "ok" => c.tree = e.tree /\ c.ser = e.ser /\ c.md = e.md)
                     : i \in 1..Len(e.copies)}
         \cup (IF Outcomes(e.raw2, e.cat2) # {"ok"} \/ e.st2 # "ok" THEN {}
               ELSE LET a == Tree(e.raw, e.cat)
                        b == Tree(e.raw2, e.cat2)
                    IN  IF a = b
                        THEN C("same-content-is-equal", Len(e.eqs) = 2 /\ All(e.eqs, TRUE) /\ All(e.nes, FALSE))
                             \cup C("same-content-same-hash", e.hash)
                             \cup C("same-content-is-interchangeable",
                                    e.tree = e.tree2 /\ e.ser = e.ser2 /\ e.md = e.md2)
                        ELSE IF Telling(a, b)
                        THEN C("other-content-is-unequal", Len(e.eqs) = 2 /\ All(e.eqs, FALSE) /\ All(e.nes, TRUE))
                        ELSE {})

---------------------------------------------------------------------------
(* Rendering.  Every node of e.tree carries what the real code returned for  *)
(* it: n.s strict, n.g tolerant, each [st, md] with st the exception class.  *)

Observed(n, lv, inl) == ~((Type(n) \in NestT /\ lv > 0) \/ inl)
RECURSIVE ObsDen(_, _, _, _)
ObsKids(n, lv, inl, mode) ==
    [i \in 1..Len(n.c) |-> ObsDen(n.c[i], KidLv(n, i, lv, inl), KidInl(n, i), mode)]
ObsDen(n, lv, inl, mode) ==
    IF Observed(n, lv, inl) THEN n[mode] ELSE Compose(n, ObsKids(n, lv, inl, mode), lv, inl, mode)
Expect(n, mode) == Compose(n, ObsKids(n, 0, FALSE, mode), 0, FALSE, mode)

(* Observed failures below n, in the parts that are rendered. *)
RECURSIVE Failing(_, _)
Failing(n, mode) ==
    UNION {(IF n.c[i][mode].st # "ok" THEN {n.c[i][mode].st} ELSE {}) \cup Failing(n.c[i], mode)
           : i \in 1..Len(Rendered(n))}

OwnerOf(t) ==
    CASE t = "text" -> "C11"
      [] t \in {"bulletList", "orderedList", "listItem"} -> "C12"
      [] t \in {"taskList", "taskItem"} -> "C13"
      [] t \in {"table", "tableRow", "tableCell", "tableHeader"} -> "C14"
      [] t \in {"blockquote", "panel", "decisionItem", "decisionList"} -> "C15"
      [] t \in {"doc", "expand", "nestedExpand"} -> "C16"
      [] t = "codeBlock" -> "C17"
      [] t = "date" -> "C20"
      [] t \in {"paragraph", "heading", "hardBreak", "rule"} -> "C22"
      [] OTHER -> "C21"
(* What is a line in a quote is left open for the line breaks other than "\n". *)
LineBased == {"blockquote", "panel"}
Speaks(n, mode) ==
    /\ Failing(n, mode) = {}
    /\ Type(n) \in LineBased => \A i \in 1..Len(n.c) : ~HasLB(n.c[i][mode].md)

SameOutcome(want, got) ==
    IF want.st = "ok" THEN got.st = "ok" /\ got.md = want.md ELSE got.st # "ok"

(* Formatting of one node, given what its children rendered to. *)
Format(n) ==
    UNION {IF ~Speaks(n, mode) THEN {}
           ELSE C("format-" \o Type(n) \o (IF mode = "s" THEN "" ELSE "-tolerant"),
                  SameOutcome(Expect(n, mode), n[mode]))
           : mode \in {"s", "g"}}
(* Paragraphs also carry marks (C11), and are judged with C22. *)
FormatC(p, n) == IF OwnerOf(Type(n)) = p THEN Format(n) ELSE {}

(* Statement level facts, judged on the text alone. *)
OneLinePerRow(n) ==
    Type(n) \in {"tableRow", "tableCell", "tableHeader"} /\ n.s.st = "ok" => ~Has(n.s.md, "\n")
EveryLinePrefixed(n) ==
    Type(n) \in {"blockquote", "panel"} /\ n.s.st = "ok" /\ n.s.md # "\n" /\ ~HasLB(n.s.md) =>
        LET drop(x) == IF EndsWith(x, "\n") THEN Upto(x, Len(x) - 1) ELSE x
            ls == Lines(drop(drop(n.s.md)))
        IN  EndsWith(n.s.md, "\n") /\ \A i \in 1..Len(ls) : StartsWith(ls[i], "> ")
OneBlankLine(n) ==
    Type(n) \in {"doc", "expand", "nestedExpand"} /\ n.s.st = "ok" => ~Has(n.s.md, "\n\n\n")

C18(n) ==
    IF Failing(n, "s") = {} THEN {}
    ELSE C("container-never-raises-" \o Type(n), n.g.st = "ok")
         \cup (IF n.g.st # "ok" THEN {} ELSE
               C("only-failing-dropped-" \o Type(n),
                (Type(n) \in LineBased => \A i \in 1..Len(n.c) : ~HasLB(n.c[i].g.md)) => n.g.md = Expect(n, "g").md))
(* The documented ways not to be renderable. *)
FailKind(n) == Type(n) \in {"inlineCard", "blockCard", "media", "date", "text", "emoji"} /\ FailsItself(n)
RECURSIVE CannotRender(_)
CannotRender(n) == FailKind(n) \/ \E i \in 1..Len(Rendered(n)) : CannotRender(n.c[i])
C19(n) ==
    LET f == Failing(n, "s")
    IN  C("raises-what-cannot-be-rendered-" \o Type(n), CannotRender(n) => n.s.st # "ok")
        \cup C("never-rendered-never-fails-" \o Type(n), Type(n) \in SilentT => n.s.st = "ok" /\ n.g.st = "ok")
        \cup
        IF f = {} THEN C("modes-agree-" \o Type(n), FailsItself(n) \/ n.s = n.g)
        ELSE C("fails-fast-" \o Type(n), n.s.st # "ok")
             \cup C("own-error-" \o Type(n), n.s.st # "ok" => n.s.st \in f)
C24(n) ==
    C("renders-" \o Type(n), (Failing(n, "s") = {} /\ ~FailKind(n)) => n.s.st = "ok")
    \cup C("documented-errors-" \o Type(n), FailKind(n) => n.s.st # "ok")

(* Words.  e.tree nodes carry w: for each own text field its words. *)
RECURSIVE WordsOf(_)
WordsOf(n) ==
    LET t == Type(n)
        own(k) == IF Has1(n.w, k) THEN Get(n.w, k) ELSE <<>>
    IN  CASE t \in SilentT    -> <<>>
          [] t = "text"       -> IF Titled(n) THEN <<>> ELSE own("text")
          [] t \in {"mention", "status", "extension"} -> own("text")
          [] t = "emoji"      -> IF IsStr(Get(n.a, "text")) THEN own("text") ELSE own("shortName")
          [] t \in LeafT      -> <<>>
          [] OTHER            -> FlattenSeq([i \in 1..Len(n.c) |-> WordsOf(n.c[i])])
C10(e) ==
    IF e.tree.s.st # "ok" THEN {}
    ELSE LET want == WordsOf(e.tree)
         IN  C("no-word-lost", {want[i] : i \in 1..Len(want)} \subseteq
                               {e.words[i] : i \in 1..Len(e.words)})
             \cup C("words-once-in-order", e.words = want)

(* C18 as a metamorphic relation: e.twin is the document without the leaves   *)
(* that were seen to fail, and its strict rendering.                         *)
RECURSIVE WithoutSeenFailing(_)
WithoutSeenFailing(n) ==
    LET kids == SelectSeq(n.c, LAMBDA x : ~(Type(x) \in LeafT /\ x.s.st # "ok"))
    IN  IF Type(n) \in SilentT THEN n
        ELSE [n EXCEPT !.c = [i \in 1..Len(kids) |-> WithoutSeenFailing(kids[i])]]
Twin18(e) ==
    IF e.twin.st = "none" THEN {}
    ELSE IF Bare(WithoutSeenFailing(e.tree)) # e.twin.tree THEN {"~twin-parsed-differently"}
    ELSE C("tolerant-never-raises", e.tree.g.st = "ok")
         \cup (IF e.twin.st # "ok" \/ e.tree.g.st # "ok" THEN {}
               ELSE C("equals-document-without-failing", e.tree.g.md = e.twin.md))

(* What shows marked texts, or the tasks within the items of a list, itself. *)
Marked(n) == \E i \in 1..Len(n.c) : Type(n.c[i]) = "text" /\ n.c[i].m # <<>>
HoldsMarked(n) ==
    \/ Type(n) = "paragraph"
    \/ Type(n) \in {"heading", "taskItem", "decisionItem", "codeBlock"} /\ Marked(n)
    \/ Type(n) = "taskList" /\ \E i \in 1..Len(n.c) : Type(n.c[i]) = "taskItem" /\ Marked(n.c[i])
HoldsTasks(n) ==
    Type(n) \in ListT /\ \E i \in 1..Len(n.c) : \E j \in 1..Len(n.c[i].c) : Type(n.c[i].c[j]) = "taskList"

(* What property p says of an element holds where it is shown on its own      *)
(* lines or within others, too: its text is found there as it is.            *)
RECURSIVE ShownIn(_, _)
ShownIn(n, p) ==
    UNION {LET x == n.c[i]
           IN  IF Type(n) \in ListT THEN (IF Type(x) = "listItem" THEN ShownIn(x, p) ELSE {})
               ELSE IF Type(n) = "listItem" /\ Type(x) \in ListT THEN ShownIn(x, p)
               ELSE IF (Type(n) = "listItem" /\ Type(x) \in NestT) \/ OwnerOf(Type(x)) # p THEN {}
               ELSE {IF Type(n) = "listItem" THEN RStrip(x.s.md) ELSE x.s.md}
           : i \in 1..Len(n.c)}
Shown(p, n) ==
    IF \/ Type(n) \notin {"doc", "expand", "nestedExpand"} \cup ListT \cup {"paragraph", "heading"}
       \/ n.s.st # "ok" \/ n.m # <<>>
    THEN {}
    ELSE C("kept-in-" \o Type(n), \A md \in ShownIn(n, p) : Has(md, "\n\n\n") \/ Has(n.s.md, md))

OverNodes(e, Op(_)) == LET ns == Nodes(e.tree) IN UNION {Op(ns[i]) : i \in 1..Len(ns)}

---------------------------------------------------------------------------
(* Catalogue: C23. *)
C23(e) ==
    CASE e.k = "type" ->      \* parse a minimal element of type e.ty in category e.cat
            LET sup == e.ty \in DOMAIN Cat(e.cat)
            IN  IF ~sup THEN C("reported-unsupported-" \o e.ty,
                               e.st = "unimpl" /\ e.ety = e.ty /\ e.ecat = e.cat)
                ELSE C("parsed-" \o e.ty, e.st = "ok")
                     \cup (IF e.st # "ok" THEN {} ELSE
                           C("class-of-" \o e.ty, e.cls = Cat(e.cat)[e.ty].cls)
                           \cup C("own-type-" \o e.ty, e.own = e.ty)
                           \cup C("own-class-exported-" \o e.ty, e.exported))
      [] e.k = "query" ->     \* does an element of type e.ty match a query for the types e.q
            C("matches-" \o e.ty, e.res = (e.ty \in {e.q[i] : i \in 1..Len(e.q)}))
      [] e.k = "enum" ->      \* the members of the type enumeration
            C("enumeration", {e.names[i] : i \in 1..Len(e.names)} = AllNamedTypes
                             /\ Len(e.names) = Len(e.values)
                             /\ \A i \in 1..Len(e.names) : e.names[i] = e.values[i])
      [] e.k = "api" ->       \* names exported by the public API module
            LET have == {e.names[i] : i \in 1..Len(e.names)}
                cl(K1) == UNION {{K1[t].cls} \cup (IF K1[t].acls = "-" THEN {} ELSE {K1[t].acls})
                                 : t \in DOMAIN K1}
                want == cl(NodeK) \cup cl(MarkK) \cup
                        {"ParamError", "UnimplementedTypeError", "TypeEnum", "parse_node",
                         "parse_mark"}
            IN  {"exports-" \o x : x \in want \ have}

---------------------------------------------------------------------------
Judge(e) ==
    CASE PROP = "C01" -> C01(e)
      [] PROP = "C02" -> C02(e)
      [] PROP = "C03" -> C03(e)
      [] PROP = "C04" -> C04(e)
      [] PROP = "C05" -> C05(e)
      [] PROP = "C06" -> C06(e)
      [] PROP = "C07" -> C07(e)
      [] PROP = "C25" -> C25(e)
      [] PROP = "C10" -> C10(e)
      [] PROP = "C14" -> OverNodes(e, LAMBDA n : FormatC("C14", n)
                                        \cup C("row-is-one-line", OneLinePerRow(n)) \cup Shown("C14", n))
      [] PROP = "C15" -> OverNodes(e, LAMBDA n : FormatC("C15", n)
                                        \cup C("every-line-prefixed", EveryLinePrefixed(n)) \cup Shown("C15", n))
      [] PROP = "C16" -> OverNodes(e, LAMBDA n : FormatC("C16", n)
                                        \cup C("at-most-one-blank-line", OneBlankLine(n)))
      [] PROP = "C11" -> OverNodes(e, LAMBDA n : FormatC("C11", n) \cup
                                        (IF HoldsMarked(n) THEN Format(n) ELSE {}))
      [] PROP = "C13" -> OverNodes(e, LAMBDA n : FormatC("C13", n) \cup
                                        (IF HoldsTasks(n) THEN Format(n) ELSE {}) \cup Shown("C13", n))
      [] PROP = "C17" -> OverNodes(e, LAMBDA n : FormatC("C17", n) \cup Shown("C17", n))
      [] PROP \in {"C12", "C20", "C21", "C22"} ->
            OverNodes(e, LAMBDA n : FormatC(PROP, n) \cup Shown(PROP, n))
      [] PROP = "C18" -> OverNodes(e, C18) \cup Twin18(e)
      [] PROP = "C19" -> OverNodes(e, C19)
                         \cup C("nothing-missing-for-lack-of-stack",
                               \A i \in 1..Len(e.stk) : e.tree.s.st = "ok" /\ e.stk[i] = e.tree.s.md)
      [] PROP = "C23" -> C23(e)
      [] PROP = "C24" -> IF e.st # "ok" THEN C("parses", ~MustParse(e))
                         ELSE OverNodes(e, C24) \cup C("serializes", e.serst = "ok")

(* How many times the property was really put to the code by this event.     *)
Count(e, P(_)) == LET ns == Nodes(e.tree) IN Cardinality({i \in 1..Len(ns) : P(ns[i])})
Obligations(e) ==
    LET bit(b) == IF b THEN 1 ELSE 0
    IN  CASE PROP \in {"C01", "C03"} -> bit(MustParse(e))
          [] PROP = "C02" -> bit(MustParse(e) /\ e.st2 = "ok")
          [] PROP = "C05" -> bit(e.st2 = "ok")
          [] PROP = "C25" -> bit(MustParse(e) /\ e.st2 = "ok")
          [] PROP = "C06" -> bit(MustParse(e) /\ e.st = "ok")
          [] PROP = "C07" -> bit(e.st = "ok")
          [] PROP \in {"C04", "C23"} -> 1
          [] e.st # "ok"  -> 0
          [] PROP = "C10" -> IF e.tree.s.st = "ok" THEN Len(WordsOf(e.tree)) ELSE 0
          [] PROP = "C18" -> Count(e, LAMBDA n : Failing(n, "s") # {})
          [] PROP \in {"C19", "C24"} -> Count(e, LAMBDA n : TRUE)
          [] PROP = "C11" -> Count(e, LAMBDA n : n.m # <<>> /\ Speaks(n, "s"))
          [] OTHER -> Count(e, LAMBDA n : OwnerOf(Type(n)) = PROP /\ Speaks(n, "s"))

Init == l = 1 /\ bad = {} /\ TLCSet(1, 0)
Next == /\ l <= Len(TraceLog)
        /\ LET e == TraceLog[l]
               v == Judge(e)
           IN  /\ bad' = bad \cup {<<e.id, x>> : x \in v}
               /\ (IF v = {} THEN TRUE ELSE PrintT(<<"FAIL", e.id, v>>))
               /\ TLCSet(1, TLCGet(1) + Obligations(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars

Consumed == /\ PrintT(<<"JUDGED", TLCGet(1)>>)
            /\ TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
