------------------------------- MODULE AdfDoc -------------------------------
(* What a document means: the typed tree it denotes, the elements that are   *)
(* skipped, the errors it must raise, its canonical serialized form.         *)
(*                                                                           *)
(* A raw element (a JSON object) is a record                                 *)
(*   t   value of "type" ("-" when missing)                                  *)
(*   f   other fields as pairs <<name, value>> sorted by name                *)
(*   ap  "obj" | "-" (absent) | other value;  a  its fields as sorted pairs  *)
(*   cp  "list" | "-" | other value;          c  children, raw elements      *)
(*   mp  "list" | "-" | other value;          m  marks, raw elements         *)
(* Values are tagged strings: "s:" string, "n:" integer, "f:" float, "b:"    *)
(* boolean, "z" null, "j:" canonical JSON of an array or object; a tag "!"   *)
(* stands for anything that is not a JSON value.                             *)
(* An element of a parsed tree has the same fields and in addition the class *)
(* cls of the object and acls of its attrs object.                           *)
EXTENDS AdfSchema, AdfText, TLC

IsStr(v) == StartsWith(v, "s:")
Str(v) == From(v, 3)
S(x) == "s:" \o x

Has1(kv, name) == \E i \in 1..Len(kv) : kv[i][1] = name
Get(kv, name) == IF Has1(kv, name)
                 THEN kv[CHOOSE i \in 1..Len(kv) : kv[i][1] = name][2] ELSE "-"
Names(kv) == {kv[i][1] : i \in 1..Len(kv)}
Only(kv, names) == SelectSeq(kv, LAMBDA p : p[1] \in names)

Typed(raw) == raw.t # "-"
Supported(raw, cat) == IsStr(raw.t) /\ Str(raw.t) \in DOMAIN Cat(cat)
Kind(raw, cat) == Cat(cat)[Str(raw.t)]

---------------------------------------------------------------------------
(* The typed tree. *)
OwnFields(raw, k) ==
    LET own == Only(raw.f, k.xreq \cup (IF k.cls = "NodeDoc" THEN {"version"} ELSE {}))
    IN  IF k.cls = "NodeDoc" /\ own = <<>> THEN <<DefaultVersion>> ELSE own

RECURSIVE Tree(_, _)
Tree(raw, cat) ==
    LET k == Kind(raw, cat)
        hasA == k.attrs # "NONE" /\ raw.ap = "obj"
        kids == IF k.content # "NONE" /\ raw.cp = "list"
                THEN SelectSeq(raw.c, LAMBDA x : Supported(x, "node")) ELSE <<>>
        mks  == IF k.marks # "NONE" /\ raw.mp = "list"
                THEN SelectSeq(raw.m, LAMBDA x : Supported(x, "mark")) ELSE <<>>
    IN  [cls  |-> k.cls,
         t    |-> raw.t,
         f    |-> OwnFields(raw, k),
         ap   |-> IF k.attrs = "NONE" THEN "-" ELSE raw.ap,
         acls |-> IF hasA THEN k.acls ELSE "-",
         a    |-> IF hasA THEN Only(raw.a, k.areq \cup k.aopt) ELSE <<>>,
         cp   |-> IF k.content = "NONE" THEN "-" ELSE raw.cp,
         c    |-> [i \in 1..Len(kids) |-> Tree(kids[i], "node")],
         mp   |-> IF k.marks = "NONE" THEN "-" ELSE raw.mp,
         m    |-> [i \in 1..Len(mks) |-> Tree(mks[i], "mark")]]

(* The parts of a typed tree, one property at a time. *)
RECURSIVE Shape(_)
Shape(n) == [t |-> n.t, c |-> [i \in 1..Len(n.c) |-> Shape(n.c[i])],
             m |-> [i \in 1..Len(n.m) |-> Shape(n.m[i])]]

RECURSIVE Classes(_)
Classes(n) == <<n.cls, n.acls, [i \in 1..Len(n.c) |-> Classes(n.c[i])],
                [i \in 1..Len(n.m) |-> Classes(n.m[i])]>>

(* The serialized form of a typed tree: the same element without classes. *)
RECURSIVE Raw(_)
Raw(n) == [t |-> n.t, f |-> n.f, ap |-> n.ap, a |-> n.a,
           cp |-> n.cp, c |-> [i \in 1..Len(n.c) |-> Raw(n.c[i])],
           mp |-> n.mp, m |-> [i \in 1..Len(n.m) |-> Raw(n.m[i])]]

---------------------------------------------------------------------------
(* Errors.  "param": a required field is missing; "err": no type at all.     *)
(* Nothing inside a skipped element is looked at.                            *)
MissingOwn(raw, k) ==
    \/ \E x \in k.xreq : ~Has1(raw.f, x)
    \/ k.attrs = "REQ" /\ raw.ap = "-"
    \/ k.attrs # "NONE" /\ raw.ap = "obj" /\ \E x \in k.areq : ~Has1(raw.a, x)
    \/ k.content = "REQ" /\ raw.cp = "-"
    \/ k.marks = "REQ" /\ raw.mp = "-"

RECURSIVE Errs(_, _)
Errs(raw, cat) ==
    IF ~Typed(raw) THEN {"err"}
    ELSE IF ~Supported(raw, cat) THEN {}
    ELSE LET k == Kind(raw, cat)
         IN  (IF MissingOwn(raw, k) THEN {"param"} ELSE {})
             \cup (IF k.content # "NONE" /\ raw.cp = "list"
                   THEN UNION {Errs(raw.c[i], "node") : i \in 1..Len(raw.c)} ELSE {})
             \cup (IF k.marks # "NONE" /\ raw.mp = "list"
                   THEN UNION {Errs(raw.m[i], "mark") : i \in 1..Len(raw.m)} ELSE {})

(* The possible outcomes of parsing raw directly. *)
Outcomes(raw, cat) ==
    IF Typed(raw) /\ ~Supported(raw, cat) THEN {"unimpl"}
    ELSE LET e == Errs(raw, cat) IN IF e = {} THEN {"ok"} ELSE e

---------------------------------------------------------------------------
(* Skipping. *)
RECURSIVE Prune(_, _)
Prune(raw, cat) ==
    LET kids == SelectSeq(raw.c, LAMBDA x : ~Typed(x) \/ Supported(x, "node"))
        mks  == SelectSeq(raw.m, LAMBDA x : ~Typed(x) \/ Supported(x, "mark"))
    IN  [raw EXCEPT !.c = [i \in 1..Len(kids) |-> Prune(kids[i], "node")],
                    !.m = [i \in 1..Len(mks) |-> Prune(mks[i], "mark")]]

(* The skipped elements in document order, as <<type, category>>.  content   *)
(* and marks of one element have no order between them: both are allowed.    *)
RECURSIVE Skipped(_, _, _)
Skipped(raw, cat, marksFirst) ==
    LET k == Kind(raw, cat)
        one(x, c) == IF Supported(x, c) THEN Skipped(x, c, marksFirst)
                     ELSE <<<<Str(x.t), c>>>>
        kids == IF k.content # "NONE" /\ raw.cp = "list"
                THEN FlattenSeq([i \in 1..Len(raw.c) |-> one(raw.c[i], "node")]) ELSE <<>>
        mks  == IF k.marks # "NONE" /\ raw.mp = "list"
                THEN FlattenSeq([i \in 1..Len(raw.m) |-> one(raw.m[i], "mark")]) ELSE <<>>
    IN  IF marksFirst THEN mks \o kids ELSE kids \o mks

(* Unknown fields: what is left when they are removed. *)
RECURSIVE Known(_, _)
Known(raw, cat) ==
    IF ~Supported(raw, cat) THEN raw
    ELSE LET k == Kind(raw, cat)
         IN  [t  |-> raw.t,
              f  |-> Only(raw.f, k.xreq \cup (IF k.cls = "NodeDoc" THEN {"version"} ELSE {})),
              ap |-> IF k.attrs = "NONE" THEN "-" ELSE raw.ap,
              a  |-> IF k.attrs = "NONE" THEN <<>> ELSE Only(raw.a, k.areq \cup k.aopt),
              cp |-> IF k.content = "NONE" THEN "-" ELSE raw.cp,
              c  |-> IF k.content = "NONE" THEN <<>>
                     ELSE [i \in 1..Len(raw.c) |-> Known(raw.c[i], "node")],
              mp |-> IF k.marks = "NONE" THEN "-" ELSE raw.mp,
              m  |-> IF k.marks = "NONE" THEN <<>>
                     ELSE [i \in 1..Len(raw.m) |-> Known(raw.m[i], "mark")]]

(* A raw element the properties about parsing speak of: every attrs is an    *)
(* object, every content and marks a list, at any place that is looked at.   *)
RECURSIVE WellShaped(_, _)
WellShaped(raw, cat) ==
    ~Supported(raw, cat) \/
    LET k == Kind(raw, cat)
    IN  /\ (k.attrs # "NONE" => raw.ap \in {"obj", "-"})
        /\ (k.content # "NONE" => raw.cp \in {"list", "-"}
                /\ \A i \in 1..Len(raw.c) : WellShaped(raw.c[i], "node"))
        /\ (k.marks # "NONE" => raw.mp \in {"list", "-"}
                /\ \A i \in 1..Len(raw.m) : WellShaped(raw.m[i], "mark"))

RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA acc, x : acc + Size(x), 0, n.c) + Len(n.m)
=============================================================================
