----------------------------- MODULE AdfRender -----------------------------
(* What a typed tree renders to.                                             *)
(*                                                                           *)
(* The outcome of rendering a node is [st, md]: st = "ok" with the Markdown  *)
(* md, or st = a failure.  Compose gives the outcome of a node from the      *)
(* outcomes of its children; the denotation Den folds it over the tree.      *)
(* mode "s" is strict rendering, "g" tolerant rendering (ignore_error).      *)
(*                                                                           *)
(* Lists are context dependent: lv is the indentation level of a list, and   *)
(* inl says that a list item (task item) is rendered as part of its list.    *)
EXTENDS AdfDoc, Integers

CONSTANTS WS,   \* white space characters
          LB    \* line breaks other than "\n"

OK(md) == [st |-> "ok", md |-> md]
FAIL == [st |-> "fail", md |-> ""]

Type(n) == IF IsStr(n.t) THEN Str(n.t) ELSE "-"
Blank(s) == RStripOf(s, WS) = ""
RStrip(s) == RStripOf(s, WS)

---------------------------------------------------------------------------
(* Integers written in decimal. *)
Digit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN Digit
IsInt(s) == IF StartsWith(s, "-") THEN IsDigits(From(s, 2)) ELSE IsDigits(s)
Nat0(s) == FoldLeft(LAMBDA acc, i : acc * 10 + Digit[Ch(s, i)], 0, [i \in 1..Len(s) |-> i])
Int0(s) == IF StartsWith(s, "-") THEN 0 - Nat0(From(s, 2)) ELSE Nat0(s)
IsIntV(v) == StartsWith(v, "n:") /\ Len(v) <= 11
IntV(v) == Int0(From(v, 3))

---------------------------------------------------------------------------
(* Dates.  A millisecond timestamp does not fit TLC's integers, so its       *)
(* decimal digits are divided by the length of a day one at a time.          *)
MsPerDay == 86400000
DivDay(digits) ==
    FoldLeft(LAMBDA acc, i :
                LET r == acc[2] * 10 + Digit[Ch(digits, i)]
                IN  <<acc[1] * 10 + (r \div MsPerDay), r % MsPerDay>>,
             <<0, 0>>, [i \in 1..Len(digits) |-> i])
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
MinDay == 0 - 719162      \* 0001-01-01
MaxDay == 2932896         \* 9999-12-31
DayInRange(ts) ==
    IsInt(ts) /\ Len(NoZeros(IF StartsWith(ts, "-") THEN From(ts, 2) ELSE ts)) <= 15
DayOf(ts) ==
    IF StartsWith(ts, "-")
    THEN LET q == DivDay(NoZeros(From(ts, 2))) IN IF q[2] = 0 THEN 0 - q[1] ELSE 0 - q[1] - 1
    ELSE DivDay(NoZeros(ts))[1]
Pad(n, w) == LET s == ToString(n) IN Repeat("0", w - Len(s)) \o s
Civil(day) ==     \* days since 1970-01-01 to YYYY-MM-DD (proleptic Gregorian)
    LET z   == day + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp  == (5 * doy + 2) \div 153
        d   == doy - ((153 * mp + 2) \div 5) + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  Pad(y, 4) \o "-" \o Pad(m, 2) \o "-" \o Pad(d, 2)
DateText(ts) ==
    IF ~DayInRange(ts) THEN FAIL
    ELSE LET d == DayOf(ts) IN IF d < MinDay \/ d > MaxDay THEN FAIL ELSE OK(Civil(d))

---------------------------------------------------------------------------
(* Marks. *)
Wrap(pre, s, post) == IF Blank(s) THEN s ELSE pre \o s \o post
MarkOut(m, s) ==
    LET t == Type(m)
    IN  CASE t = "strong" -> OK(Wrap("**", s, "**"))
          [] t = "em"     -> OK(Wrap("*", s, "*"))
          [] t = "strike" -> OK(Wrap("~~", s, "~~"))
          [] t = "code"   -> IF Has(s, "\n") THEN FAIL ELSE OK(Wrap("`` ", s, " ``"))
          [] t = "link"   -> LET ti == Get(m.a, "title")
                             IN  OK("[" \o (IF IsStr(ti) THEN Str(ti) ELSE s) \o "]("
                                    \o Str(Get(m.a, "href")) \o ")")
          [] t = "indentation" -> OK(Repeat("\t", IntV(Get(m.a, "level"))) \o s)
          [] OTHER -> OK(s)
Styled(n, s) ==
    FoldLeft(LAMBDA acc, m : IF acc.st = "ok" THEN MarkOut(m, acc.md) ELSE acc, OK(s), n.m)

---------------------------------------------------------------------------
(* Leaves. *)
StrOr(v, dflt) == IF IsStr(v) THEN Str(v) ELSE dflt
Card(u) == "[" \o u \o "](" \o u \o ")"
MediaOut(n) ==
    LET ty  == Get(n.a, "type")
        url == Get(n.a, "url")
        id  == Get(n.a, "id")
        alt == StrOr(Get(n.a, "alt"), "media")
    IN  CASE ty = "s:external" /\ IsStr(url) -> Styled(n, "![" \o alt \o "](" \o Str(url) \o ")")
          [] ty = "s:file" -> Styled(n, "![" \o alt \o "](media:" \o Str(id) \o ")")
          [] ty = "s:link" -> OK("[media]")
          [] OTHER -> FAIL
LeafOut(n) ==
    LET t == Type(n)
        at(k) == Get(n.a, k)
    IN  CASE t = "text"       -> Styled(n, Str(Get(n.f, "text")))
          [] t = "hardBreak"  -> OK("  \n")
          [] t = "rule"       -> OK("\n\n---\n\n")
          [] t = "date"       -> IF IsStr(at("timestamp")) \/ StartsWith(at("timestamp"), "n:")
                                 THEN DateText(From(at("timestamp"), 3)) ELSE FAIL
          [] t = "emoji"      -> IF IsStr(at("text")) THEN OK(Str(at("text")))
                                 ELSE IF IsStr(at("shortName")) THEN OK(Str(at("shortName"))) ELSE FAIL
          [] t = "mention"    -> OK(StrOr(at("text"), "@Unknown"))
          [] t = "status"     -> OK("`" \o Str(at("text")) \o "`")
          [] t = "inlineCard" -> IF IsStr(at("url")) THEN OK(Card(Str(at("url")))) ELSE FAIL
          [] t = "blockCard"  -> IF IsStr(at("url")) THEN OK("\n" \o Card(Str(at("url"))) \o "\n")
                                 ELSE FAIL
          [] t = "embedCard"  -> OK("\n" \o Card(Str(at("url"))) \o "\n")
          [] t = "extension"  ->
                IF IsStr(at("text")) /\ Str(at("text")) # ""
                THEN OK("[Extension: " \o Str(at("extensionKey")) \o "] " \o Str(at("text")))
                ELSE OK("[Extension: " \o Str(at("extensionType")) \o "/"
                        \o Str(at("extensionKey")) \o "]")
          [] t = "media"      -> MediaOut(n)
LeafT == {"text", "hardBreak", "rule", "date", "emoji", "mention", "status", "inlineCard",
          "blockCard", "embedCard", "extension", "media"}
(* Never rendered, with everything inside. *)
SilentT == {"caption", "mediaGroup", "mediaInline"}
ListT == {"bulletList", "orderedList"}
NestT == ListT \cup {"taskList"}
PaddedT == ListT \cup {"codeBlock"}

---------------------------------------------------------------------------
(* Containers.  ps is the sequence of rendered children as <<node, outcome>> *)
Mds(ps) == [i \in 1..Len(ps) |-> ps[i][2].md]

DocText(ps) ==
    Collapse(Join([i \in 1..Len(ps) |->
                IF Type(ps[i][1]) \in PaddedT THEN "\n" \o ps[i][2].md \o "\n" ELSE ps[i][2].md],
             "\n"))

ItemText(ps) ==      \* a list item within its list
    Join([i \in 1..Len(ps) |->
             IF Type(ps[i][1]) \in NestT THEN ps[i][2].md ELSE RStrip(ps[i][2].md)], "\n")

Indent(lv) == Repeat("    ", lv)
(* Numbers may be larger than TLC's: s is a decimal number, k a small one.   *)
RECURSIVE AddTo(_, _)
AddTo(s, k) ==
    IF Len(s) <= 9 THEN ToString(Int0(s) + k)
    ELSE LET hi == Upto(s, Len(s) - 8)
             lo == Nat0(From(s, Len(s) - 7)) + k
         IN  IF lo < 100000000 THEN hi \o Pad(lo, 8) ELSE AddTo(hi, 1) \o Pad(lo - 100000000, 8)
StartNum(n, lv) ==
    IF lv = 0 /\ StartsWith(Get(n.a, "order"), "n:") THEN From(Get(n.a, "order"), 3) ELSE "1"
ListText(n, ps, lv) ==
    LET items == SelectSeq(ps, LAMBDA p : Type(p[1]) = "listItem")
        marker(i) == IF Type(n) = "bulletList" THEN "- "
                     ELSE AddTo(StartNum(n, lv), i - 1) \o ". "
    IN  Join([i \in 1..Len(items) |-> Indent(lv) \o marker(i) \o items[i][2].md], "\n")

TaskText(ps, lv) ==
    LET items == SelectSeq(ps, LAMBDA p : Type(p[1]) \in {"taskItem", "taskList"})
    IN  Join([i \in 1..Len(items) |->
                LET x == items[i][1]
                IN  IF Type(x) = "taskList" THEN items[i][2].md
                    ELSE Indent(lv) \o "- " \o (IF Get(x.a, "state") = "s:DONE" THEN "[x] " ELSE "[ ] ")
                         \o RStrip(items[i][2].md)], "\n")

DecisionText(s) ==
    LET step(acc, raw) ==     \* <<lines out, number of text lines, last was blank>>
            LET line == RStrip(raw)
            IN  IF line # "" THEN <<Append(acc[1], "> " \o line), acc[2] + 1, FALSE>>
                ELSE IF acc[2] <= 1 \/ acc[3] THEN acc
                ELSE <<Append(acc[1], ">"), acc[2], TRUE>>
    IN  Join(FoldLeft(step, <<<<>>, 0, FALSE>>, Lines(RStrip(s)))[1], "\n")

CellText(s) ==
    LET nb(line) == LET r == LStripOf(line, {" "})
                    IN  Repeat("&nbsp;", Len(line) - Len(r)) \o r
        ls == Lines(Replace(s, "|", "\\|"))
    IN  Join([i \in 1..Len(ls) |-> nb(ls[i])], "<br>")

RowText(cells) == "| " \o Join(cells, " | ") \o " |"
TableText(ps) ==
    Join(FlattenSeq([i \in 1..Len(ps) |->
        LET row == ps[i][1]
        IN  IF row.c # <<>> /\ Type(row.c[1]) = "tableHeader"
            THEN <<ps[i][2].md, RowText([j \in 1..Len(row.c) |-> "---"])>>
            ELSE <<ps[i][2].md>>]), "\n")

Fence(n, code) ==
    LET l == StrOr(Get(n.a, "language"), "")
    IN  "```" \o (IF l = "none" THEN "" ELSE l) \o "\n" \o code \o "\n```"

(* Upper case of ASCII letters; every other character is left alone. *)
LOWER == "abcdefghijklmnopqrstuvwxyz"
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpCh(c) == IF \E i \in 1..26 : Ch(LOWER, i) = c
           THEN LET i == CHOOSE i \in 1..26 : Ch(LOWER, i) = c IN Ch(UPPER, i) ELSE c
Upper(s) == Concat([i \in 1..Len(s) |-> UpCh(Ch(s, i))])

---------------------------------------------------------------------------
Compose(n, outs, lv, inl, mode) ==
    LET t == Type(n)
        all == [i \in 1..Len(n.c) |-> <<n.c[i], outs[i]>>]
        ps == SelectSeq(all, LAMBDA p : p[2].st = "ok")
        cat == Concat(Mds(ps))
    IN  IF t \in SilentT THEN OK("")
        ELSE IF t \in LeafT THEN LeafOut(n)
        ELSE IF mode = "s" /\ Len(ps) < Len(all) THEN FAIL
        ELSE CASE t = "paragraph" -> LET s == Styled(n, cat)
                                     IN  IF s.st = "ok" THEN OK(s.md \o "\n") ELSE s
               [] t = "heading"   -> OK("\n\n" \o Repeat("#", IntV(Get(n.a, "level"))) \o " "
                                        \o cat \o "\n\n")
               [] t = "codeBlock" -> OK(Fence(n, cat))
               [] t \in {"mediaSingle", "taskItem"} -> OK(cat)
               [] t = "listItem"  -> OK(IF inl THEN ItemText(ps) ELSE cat)
               [] t \in ListT     -> OK(ListText(n, ps, lv))
               [] t = "taskList"  -> OK(TaskText(ps, lv))
               [] t \in {"doc", "expand", "nestedExpand"} -> OK(DocText(ps))
               [] t = "blockquote" -> OK(PrefixLines(DocText(ps), "> ") \o "\n")
               [] t = "panel"     ->
                    OK(PrefixLines(Collapse("**" \o Upper(Str(Get(n.a, "panelType"))) \o "**\n\n"
                                            \o DocText(ps)), "> ") \o "\n")
               [] t = "decisionItem" -> OK(DecisionText(cat))
               [] t = "decisionList" -> OK(Join(Mds(ps), "\n\n"))
               [] t \in {"tableCell", "tableHeader"} -> OK(CellText(cat))
               [] t = "tableRow"  -> OK(RowText(Mds(ps)))
               [] t = "table"     -> OK(TableText(ps))

(* The context in which a node renders its i-th child. *)
KidLv(n, i, lv, inl) ==
    IF Type(n) \in ListT THEN lv
    ELSE IF Type(n) = "taskList" THEN (IF Type(n.c[i]) = "taskList" THEN lv + 1 ELSE lv)
    ELSE IF Type(n) = "listItem" /\ inl /\ Type(n.c[i]) \in NestT THEN lv + 1
    ELSE 0
KidInl(n, i) == \/ Type(n) \in ListT /\ Type(n.c[i]) = "listItem"
                \/ Type(n) = "taskList" /\ Type(n.c[i]) = "taskItem"

RECURSIVE Den(_, _, _, _)
Den(n, lv, inl, mode) ==
    Compose(n, [i \in 1..Len(n.c) |-> Den(n.c[i], KidLv(n, i, lv, inl), KidInl(n, i), mode)],
            lv, inl, mode)
Render(n, mode) == Den(n, 0, FALSE, mode)

---------------------------------------------------------------------------
(* Failing leaves, and the tree without them. *)
Rendered(n) == IF Type(n) \in SilentT THEN <<>> ELSE n.c
FailsItself(n) == Type(n) \in LeafT /\ LeafOut(n).st # "ok"
RECURSIVE AnyFails(_)
AnyFails(n) == FailsItself(n) \/ \E i \in 1..Len(Rendered(n)) : AnyFails(n.c[i])
RECURSIVE WithoutFailing(_)
WithoutFailing(n) ==
    LET kids == SelectSeq(n.c, LAMBDA x : ~FailsItself(x))
    IN  IF Type(n) \in SilentT THEN n
        ELSE [n EXCEPT !.c = [i \in 1..Len(kids) |-> WithoutFailing(kids[i])]]

---------------------------------------------------------------------------
(* Visible text: the texts a document shows, in order.  A link mark with a   *)
(* title replaces the text it is on.                                         *)
Titled(n) == \E i \in 1..Len(n.m) : Type(n.m[i]) = "link" /\ IsStr(Get(n.m[i].a, "title"))
RECURSIVE Visible(_)
Visible(n) ==
    LET t == Type(n)
        own(v) == IF IsStr(v) THEN <<Str(v)>> ELSE <<>>
    IN  CASE t \in SilentT    -> <<>>
          [] t = "text"       -> IF Titled(n) THEN <<>> ELSE own(Get(n.f, "text"))
          [] t \in {"mention", "status", "extension"} -> own(Get(n.a, "text"))
          [] t = "emoji"      -> IF IsStr(Get(n.a, "text")) THEN own(Get(n.a, "text"))
                                 ELSE own(Get(n.a, "shortName"))
          [] t \in LeafT      -> <<>>
          [] OTHER            -> FlattenSeq([i \in 1..Len(n.c) |-> Visible(n.c[i])])
=============================================================================
