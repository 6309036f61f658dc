------------------------------ MODULE AdfSmall ------------------------------
(* Small scopes: for each property the set of all documents up to a size     *)
(* over a small alphabet.  The models are checked on all of them, and        *)
(* ExportSmall.tla writes them for the real code, whose behaviour on each is *)
(* then judged by AdfTrace.tla.                                              *)
EXTENDS AdfDoc, Integers, IOUtils

E(t) == [t |-> S(t), f |-> <<>>, ap |-> "-", a |-> <<>>, cp |-> "-", c |-> <<>>,
         mp |-> "-", m |-> <<>>]
In(n, kids) == [n EXCEPT !.cp = "list", !.c = kids]
At(n, kv) == [n EXCEPT !.ap = "obj", !.a = kv]
Mk(n, marks) == [n EXCEPT !.mp = "list", !.m = marks]
Txt(s) == [E("text") EXCEPT !.f = <<<<"text", S(s)>>>>]
Doc(kids) == [In(E("doc"), kids) EXCEPT !.f = <<<<"version", "n:1">>>>]

Pick(X, n) == UNION {[1..k -> X] : k \in 0..n}       \* sequences of length at most n
Exactly(X, n) == [1..n -> X]

(* Every "#" in a text is replaced by a word that is unique in the document. *)
Word(k) == "Zw" \o ToString(k) \o "k"
NumberText(v, k) ==
    FoldLeft(LAMBDA acc, i : IF Ch(v, i) = "#" THEN <<acc[1] \o Word(acc[2]), acc[2] + 1>>
                             ELSE <<acc[1] \o Ch(v, i), acc[2]>>,
             <<"", k>>, [i \in 1..Len(v) |-> i])
RECURSIVE Number(_, _)
Number(n, k) ==      \* <<n with its words numbered from k, next number>>
    IF n.t = "s:text" /\ n.f # <<>>
    THEN LET r == NumberText(n.f[1][2], k) IN <<[n EXCEPT !.f[1][2] = r[1]], r[2]>>
    ELSE LET r == FoldLeft(LAMBDA acc, x : LET y == Number(x, acc[2])
                                           IN  <<Append(acc[1], y[1]), y[2]>>, <<<<>>, k>>, n.c)
         IN  <<[n EXCEPT !.c = r[1]], r[2]>>
Numbered(n) == Number(n, 1)[1]

---------------------------------------------------------------------------
Para(s) == In(E("paragraph"), IF s = "" THEN <<>> ELSE <<Txt(s)>>)
Item(kids) == In(E("listItem"), kids)
Bullet(items) == In(E("bulletList"), items)
Ordered(start, items) == At(In(E("orderedList"), items), <<<<"order", start>>>>)
Ordered0(items) == In(E("orderedList"), items)
TaskL(items) == At(In(E("taskList"), items), <<<<"localId", "s:l">>>>)
Task(st, kids) == At(In(E("taskItem"), kids), <<<<"localId", "s:i">>, <<"state", S(st)>>>>)
Code(l, texts) == LET n == In(E("codeBlock"), texts)
                  IN  IF l = "-" THEN n ELSE At(n, <<<<"language", l>>>>)
Quote(kids) == In(E("blockquote"), kids)
Panel(ty, kids) == At(In(E("panel"), kids), <<<<"panelType", S(ty)>>>>)
Expand(kids) == In(E("expand"), kids)
Decision(kids) == At(In(E("decisionItem"), kids), <<<<"localId", "s:i">>, <<"state", "s:DECIDED">>>>)
Decisions(items) == At(In(E("decisionList"), items), <<<<"localId", "s:l">>>>)
Cell(t, kids) == In(E(t), kids)
RowOf(cells) == In(E("tableRow"), cells)
TableOf(rows) == In(E("table"), rows)
Heading(l, kids) == At(In(E("heading"), kids), <<<<"level", l>>>>)
Rule == E("rule")
Brk == E("hardBreak")
GoodCard == At(E("blockCard"), <<<<"url", "s:u">>>>)
BadCard == At(E("blockCard"), <<>>)
BadInline == At(E("inlineCard"), <<>>)
GoodInline == At(E("inlineCard"), <<<<"url", "s:u">>>>)
BadDate == At(E("date"), <<<<"timestamp", "s:abc">>>>)
BadMedia == At(E("media"), <<<<"type", "s:external">>>>)
GoodMedia == At(E("media"), <<<<"id", "s:i">>, <<"type", "s:file">>>>)
Single(kids) == In(E("mediaSingle"), kids)
CodeM == E("code")
BadText == Mk(Txt("x\ny"), <<CodeM>>)
Mention == At(E("mention"), <<<<"id", "s:1">>, <<"text", "s:@m">>>>)

---------------------------------------------------------------------------
(* C11: every sequence of at most three marks on every kind of text. *)
Link == At(E("link"), <<<<"href", "s:h">>>>)
LinkT == At(E("link"), <<<<"href", "s:h">>, <<"title", "s:t">>>>)
CoreMarks == {E("strong"), E("em"), E("strike"), CodeM, Link, LinkT, E("underline"),
              At(E("textColor"), <<<<"color", "s:c">>>>)}
Texts == {"#", " # ", "", " ", "#\n#"}
F11(size) == {Doc(<<In(E("paragraph"), <<Mk(Txt(x), ms), Txt("z")>>)>>) :
                  x \in Texts, ms \in Pick(CoreMarks, IF size = 1 THEN 2 ELSE 3)}

(* C12: lists in lists. *)
ItemLeaf == {Para("#"), Para("")}
L0 == {Bullet(<<Item(<<Para("#")>>)>>), Ordered("n:9", <<Item(<<Para("#")>>), Item(<<Para("#")>>)>>),
       Ordered0(<<Item(<<>>)>>), TaskL(<<Task("DONE", <<Txt("#")>>)>>)}
I1(size) == {Item(k) : k \in Pick(ItemLeaf \cup L0, 2)}
L1(size) == {f : f \in {Bullet(<<i>>) : i \in I1(size)} \cup {Ordered("n:0", <<i, Item(<<Para("#")>>)>>) : i \in I1(size)}}
F12(size) ==
    LET i1 == I1(size)
    IN  {Doc(<<Bullet(k)>>) : k \in Pick(IF size = 1 THEN {Item(<<a, b>>) : a \in ItemLeaf, b \in L0} \cup {Item(<<>>)} ELSE i1, 2)}
        \cup {Doc(<<Ordered(o, k)>>) : o \in {"n:1", "n:0", "n:99"}, k \in Pick({Item(<<Para("#")>>)} \cup {Item(<<x>>) : x \in L0}, 2)}
        \cup {Doc(<<Ordered0(<<Item(<<Para("#"), x>>)>>)>>) : x \in L1(size)}
        \cup {Doc(<<Bullet(<<Item(<<Para("#"), x, Para("#")>>)>>)>>) : x \in L1(size)}

(* C13: task lists. *)
T0 == {Task("DONE", <<Txt("#")>>), Task("TODO", <<Txt("#  ")>>), Task("DONE", <<>>),
       At(E("taskItem"), <<<<"localId", "s:i">>, <<"state", "s:TODO">>>>)}
TL1 == {TaskL(k) : k \in Pick(T0, 2)}
TL2 == {TaskL(<<x, y>>) : x \in {Task("DONE", <<Txt("#")>>)}, y \in TL1}
F13(size) ==
    {Doc(<<TaskL(k)>>) : k \in Pick(T0 \cup {TaskL(<<Task("DONE", <<Txt("#")>>)>>), TaskL(<<>>)}, IF size = 1 THEN 2 ELSE 3)}
    \cup {Doc(<<TaskL(<<x, y, Task("TODO", <<Txt("#")>>)>>)>>) : x \in T0, y \in TL1 \cup TL2}
    \cup {Doc(<<Bullet(<<Item(<<Para("#"), x>>)>>)>>) : x \in TL1}

(* C14: tables. *)
CellBody == {<<>>, <<Para("#")>>, <<Para("a|b")>>, <<Para("#"), Para(" c")>>}
Cells(size) == {Cell(t, b) : t \in {"tableHeader", "tableCell"},
                             b \in IF size = 1 THEN {<<>>, <<Para("#|"), Para(" c")>>} ELSE CellBody}
F14(size) == {Doc(<<TableOf(<<RowOf(x), RowOf(y)>>)>>) : x \in Pick(Cells(size), 2),
                                                         y \in Pick(Cells(1), 2)}
             \cup {Doc(<<TableOf(<<RowOf(<<Cell("tableCell", b \o <<y>>)>>)>>)>>) :
                      b \in CellBody, y \in {Code("-", <<Txt("  #\n\n|")>>), Bullet(<<Item(<<Para("#|#")>>), Item(<<Para("#")>>)>>),
                                       Rule, Quote(<<Para("#")>>), Panel("tip", <<Para("#")>>)}}

(* C15: quotes, panels, decisions. *)
QBody == {Para("#"), Para(""), Para("#\n\n#"), Code("-", <<Txt("#\n\n#")>>),
          Bullet(<<Item(<<Para("#")>>)>>)}
Q1 == {Quote(k) : k \in Pick(QBody, 2)} \cup {Panel("info", k) : k \in Pick(QBody, 2)}
DKids == {Txt("#"), Brk, Txt("\n"), Txt(" ")}
F15(size) ==
    {Doc(<<x>>) : x \in Q1}
    \cup {Doc(<<Quote(<<x, y>>)>>) : x \in QBody, y \in Q1}
    \cup {Doc(<<Panel("note", <<x, y>>)>>) : x \in IF size = 1 THEN {Para("#")} ELSE QBody,
                                             y \in {q \in Q1 : TRUE}}
    \cup {Doc(<<Decisions(<<Decision(k)>>)>>) : k \in Pick(DKids, IF size = 1 THEN 4 ELSE 5)}
    \cup {Doc(<<Decisions(<<Decision(<<Txt("#")>>), Decision(k), Decision(k)>>)>>) : k \in Pick(DKids, 2)}

(* C16: block sequences. *)
Blocks == {Para("#"), Para(""), Rule, Heading("n:2", <<Txt("#")>>), Code("s:py", <<Txt("#")>>),
           Bullet(<<Item(<<Para("#")>>)>>), Bullet(<<>>), GoodCard,
           Ordered0(<<Item(<<Para("#")>>)>>), TaskL(<<Task("DONE", <<Txt("#")>>)>>),
           In(E("mediaGroup"), <<>>)}
F16(size) ==
    {Doc(k) : k \in Pick(Blocks, IF size = 1 THEN 2 ELSE 3)}
    \cup {Doc(<<Para("#"), Expand(k), Para("#")>>) : k \in Pick(Blocks, 2)}
    \cup {Doc(k) : k \in Exactly({Para("#"), Para(""), Rule}, IF size = 1 THEN 4 ELSE 6)}

(* C17: code blocks. *)
Langs == {"-", "s:", "s:none", "s:py", "s:None", "z"}
CodeTexts == {Txt("#"), Txt(""), Txt("\n"), Txt("  # \n\n\n\n#\n"), Txt("|*`")}
F17(size) == {Doc(<<Code(l, k)>>) : l \in Langs, k \in Pick(CodeTexts, IF size = 1 THEN 2 ELSE 3)}
             \cup {Doc(<<Para("#"), Code(l, k), Code(l, k)>>) : l \in Langs, k \in Pick(CodeTexts, 1)}

(* C18, C19: failing leaves everywhere. *)
InlineX == {Txt("#"), BadInline, GoodInline, BadDate, BadText}
PX(n) == {In(E("paragraph"), k) : k \in Pick(InlineX, n)}
Leafy == {Para("#"), BadCard, In(E("paragraph"), <<Txt("#"), BadInline, Txt("#")>>), Single(<<BadMedia>>),
          Single(<<BadMedia, GoodMedia>>)}
Hosts(k) == {Quote(k), Panel("tip", k), Expand(k), Bullet(<<Item(k), Item(<<Para("#")>>)>>),
             Ordered0(<<Item(<<Para("#")>>), Item(k)>>),
             TableOf(<<RowOf(<<Cell("tableCell", k), Cell("tableHeader", <<Para("#")>>)>>)>>),
             In(E("nestedExpand"), k) }
InlineHosts(k) == {Heading("n:1", k), TaskL(<<Task("DONE", k), Task("TODO", <<Txt("#")>>)>>),
                   Decisions(<<Decision(k), Decision(<<Txt("#")>>)>>),
                   Bullet(<<Item(<<In(E("paragraph"), k), Bullet(<<Item(<<In(E("paragraph"), k)>>)>>)>>)>>)}
F18(size) ==
    {Doc(<<p, Para("#")>>) : p \in PX(IF size = 1 THEN 2 ELSE 3)}
    \cup {Doc(k) : k \in Pick(Leafy, 2)}
    \cup UNION {{Doc(<<h, Para("#")>>) : h \in Hosts(k)} : k \in Pick(Leafy, IF size = 1 THEN 1 ELSE 2)}
    \cup UNION {{Doc(<<h>>) : h \in InlineHosts(k)} : k \in Pick(InlineX, 2)}
    \cup UNION {{Doc(<<Quote(<<Para("#"), h>>)>>) : h \in Hosts(<<x>>)} : x \in Leafy}
    \cup UNION {{Doc(<<Bullet(<<Item(<<Para("#"), h>>)>>)>>) : h \in Hosts(<<x>>)} : x \in Leafy}

(* C22: paragraphs and headings. *)
F22(size) ==
    {Doc(<<In(E("paragraph"), k)>>) : k \in Pick({Txt("#"), Brk, Txt(""), Txt(" # "), Mention}, 3)}
    \cup {Doc(<<Heading(l, k)>>) : l \in {"n:1", "n:2", "n:3", "n:4", "n:5", "n:6"},
                                k \in Pick({Txt("#"), Brk, Mention}, 2)}
    \cup {Doc(<<E("paragraph"), At(E("heading"), <<<<"level", "n:1">>>>)>>)}

(* C21: leaves with every combination of the attributes they show. *)
Opt(k, vs) == {<<>>} \cup {<<<<k, v>>>> : v \in vs}
Shown(t, base, o1, o2) == {At(E(t), x \o base \o y) : x \in o1, y \in o2}
Leaf21 ==
    Shown("inlineCard", <<>>, {<<>>}, Opt("url", {"s:u", "s:", "z"}))
    \cup Shown("emoji", <<<<"shortName", "s::e:">>>>, {<<>>}, Opt("text", {"s:x", "s:", "z"}))
    \cup Shown("mention", <<<<"id", "s:1">>>>, {<<>>}, Opt("text", {"s:@x", "s:", "z"}))
    \cup Shown("status", <<<<"color", "s:red">>>>, {<<>>}, {<<<<"text", "s:x y">>>>, <<<<"text", "s:">>>>})
    \cup Shown("mediaInline", <<<<"collection", "s:c">>, <<"id", "s:i">>>>, {<<>>}, Opt("type", {"s:file"}))
Block21 ==
    Shown("blockCard", <<>>, {<<>>}, Opt("url", {"s:u", "s:", "z"}))
    \cup Shown("embedCard", <<<<"layout", "s:wide">>>>, {<<>>}, {<<<<"url", "s:u">>>>})
    \cup Shown("extension", <<<<"extensionKey", "s:k">>, <<"extensionType", "s:t">>>>, {<<>>},
                Opt("text", {"s:x", "s:", "z"}))
Media21 ==
    {At(E("media"), a \o i \o <<<<"type", ty>>>> \o u) :
        a \in Opt("alt", {"s:q", "s:", "z"}), i \in Opt("id", {"s:i"}),
        ty \in {"s:external", "s:link", "s:odd"}, u \in Opt("url", {"s:u", "z"})}
    \cup {At(E("media"), a \o <<<<"id", "s:i">>, <<"type", "s:file">>>>) : a \in Opt("alt", {"s:q", "s:", "z"})}
F21(size) ==
    {Doc(<<In(E("paragraph"), k)>>) : k \in Pick(Leaf21, IF size = 1 THEN 1 ELSE 2)}
    \cup {Doc(<<Para("#"), x, y>>) : x \in Block21, y \in Block21}
    \cup {Doc(<<Single(<<Mk(x, m)>>)>>) : x \in Media21, m \in Pick({Link, LinkT}, 1)}
    \cup {Doc(<<Single(<<x, In(E("caption"), <<Txt("#")>>)>>), Para("#")>>) : x \in Media21}
    \cup {Doc(<<In(E("mediaGroup"), <<x>>), Para("#")>>) : x \in Media21}

---------------------------------------------------------------------------
(* Parsing: unsupported elements, defects, unknown fields at any place. *)
Uns == {E("placeholder"), In(E("bodiedExtension"), <<Para("#"), E("heading"), E("zzz")>>), E("strong")}
UMark == {E("nope"), At(E("external"), <<<<"x", "n:1">>>>)}
Good == {Para("#"), Bullet(<<Item(<<Para("#")>>)>>)}
NoText == E("text")                              \* no text
NoLevel == At(E("heading"), <<>>)                \* no level
NoAttrs == E("panel")                            \* no attrs, no content
NoType == [E("paragraph") EXCEPT !.t = "-"]
NoHref == Mk(Txt("#"), <<E("strong"), At(E("link"), <<>>)>>)
Extra == [Para("#") EXCEPT !.f = <<<<"zzz", "n:1">>>>, !.ap = "obj", !.a = <<<<"q", "z">>, <<"localId", "s:p">>>>]
TM == {Mk(Txt("#"), ms) : ms \in Pick({E("strong"), CodeM} \cup UMark, 2)}
Block1(size) ==
    Good \cup Uns \cup (IF size = 1 THEN {} ELSE {Extra})
    \cup {In(E("paragraph"), k) : k \in Pick({Txt("#"), E("placeholder")} \cup TM, 1)}
    \cup {Bullet(k) : k \in Pick({Item(<<Para("#")>>), E("zzz")}, 2)}
F02(size) ==
    {Doc(k) : k \in Pick(Good \cup Uns \cup {Extra}, 3)}
    \cup {Doc(<<x, y>>) : x \in Block1(size), y \in Uns \cup {Para("#")}}
    \cup {Doc(<<Quote(<<x>>), Panel("tip", <<y>>)>>) : x \in Block1(1), y \in Uns \cup {Para("#")}}
Bad == {NoLevel, NoAttrs, NoType, In(E("paragraph"), <<NoText>>), In(E("paragraph"), <<NoHref>>),
        Bullet(<<E("listItem")>>), In(E("taskList"), <<>>)}
F04(size) ==
    {Doc(k) : k \in Pick({Para("#"), E("placeholder")} \cup Bad, IF size = 1 THEN 2 ELSE 3)}
    \cup {Doc(<<In(E("bodiedExtension"), <<x>>), y>>) : x \in Bad, y \in Bad \cup Good}
    \cup UNION {{Doc(<<h>>) : h \in Hosts(<<x>>)} : x \in Bad}

(* C25: documents that differ in one place, or in nothing that matters. *)
B25 == {Para("x"), Para("y"), Para(""), E("paragraph"), At(E("paragraph"), <<>>), At(Para("x"), <<<<"localId", "s:x">>>>),
        [Para("x") EXCEPT !.f = <<<<"zzz", "n:1">>>>], In(E("paragraph"), <<E("placeholder")>>), E("placeholder"),
        Bullet(<<>>), Bullet(<<Item(<<>>)>>), Ordered0(<<Item(<<>>)>>), Ordered("n:1", <<Item(<<>>)>>), Ordered("z", <<Item(<<>>)>>),
        In(E("paragraph"), <<Txt("x"), Txt("y")>>), In(E("paragraph"), <<Txt("y"), Txt("x")>>), Para("xy")}
       \cup {In(E("paragraph"), <<Mk(Txt("x"), m)>>) : m \in {<<>>, <<E("strong")>>, <<E("strong"), E("em")>>, <<E("em"), E("strong")>>,
                                                            <<E("nope")>>, <<LinkT>>, <<Link>>}}
F25(size) == {Doc(k) : k \in Pick(B25, IF size = 1 THEN 1 ELSE 2)} \cup {Doc(<<Quote(<<x>>)>>) : x \in B25}

---------------------------------------------------------------------------
Blockish(size) == F12(1) \cup F13(1) \cup F14(1) \cup F15(1) \cup F16(size) \cup F17(1)
Family(p, size) ==
    {Numbered(d) : d \in
        CASE p \in {"C01", "C02", "C03", "C05", "C06", "C07"} -> F02(size)
          [] p = "C04" -> F04(size)
          [] p = "C25" -> F25(size)
          [] p = "C11" -> F11(size)
          [] p = "C12" -> F12(size)
          [] p = "C13" -> F13(size)
          [] p = "C14" -> F14(size)
          [] p = "C15" -> F15(size)
          [] p = "C16" -> F16(size)
          [] p = "C17" -> F17(size)
          [] p \in {"C18", "C19"} -> F18(size)
          [] p = "C21" -> F21(size)
          [] p = "C22" -> F22(size)
          [] p \in {"C10", "C24"} -> Blockish(size)
          [] OTHER -> {}}

(* The scope named by the environment. *)
EnvProps == {IOEnv.PROP}
EnvSize == CHOOSE k \in 1..9 : ToString(k) = IOEnv.SIZE
=============================================================================
