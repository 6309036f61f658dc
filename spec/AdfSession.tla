----------------------------- MODULE AdfSession -----------------------------
(* A program using the library: it parses documents, serializes and renders  *)
(* them, changes the dicts it passed in and got back, and flips the warning  *)
(* setting, in any order.                                                    *)
(*                                                                           *)
(* A slot is a variable of that program.  Values live in memory cells:       *)
(* inp[s] is the cell of the dict that slot s was parsed from, obj[s] the    *)
(* cell of the parsed document, outp[s] the cell of the dict that            *)
(* serializing it returned last.  Parsing and serializing copy into a fresh  *)
(* cell; COPIES = FALSE is the faulty library that does not.                 *)
(*                                                                           *)
(* res is the result of the last call, as the name of a value: "tree:3" the  *)
(* tree of document 3, "ser:3" its serialized form, "md:s:3" its Markdown.   *)
(* That these names mention nothing but the document is property C09, that   *)
(* they survive changes by the caller is C08.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Slots, Docs, BadDocs, COPIES

VARIABLES heap,    \* cell -> document in it, or "dirty"
          obj, inp, outp,   \* slot -> cell or "none"
          held,    \* slot -> document the program parsed into it
          warnOn, res
svars == <<heap, obj, inp, outp, held, warnOn, res>>

Cells == {<<s, k>> : s \in Slots, k \in {"in", "obj", "out"}}
None == <<0, "none">>
N(d) == ToString(d)

SInit ==
    /\ heap = [c \in Cells |-> "free"]
    /\ obj = [s \in Slots |-> None]
    /\ inp = [s \in Slots |-> None]
    /\ outp = [s \in Slots |-> None]
    /\ held = [s \in Slots |-> "none"]
    /\ warnOn = TRUE
    /\ res = "start"

Full(s) == obj[s] # None
Seen(s) == heap[obj[s]]              \* what the document in slot s looks like

(* Parse a dict holding document d into slot s. *)
Parse(s, d) ==
    /\ LET in == <<s, "in">>
           o == IF COPIES THEN <<s, "obj">> ELSE in
       IN  /\ heap' = [heap EXCEPT ![in] = N(d), ![o] = N(d)]
           /\ inp' = [inp EXCEPT ![s] = in]
           /\ obj' = [obj EXCEPT ![s] = o]
           /\ outp' = [outp EXCEPT ![s] = None]
    /\ held' = [held EXCEPT ![s] = N(d)]
    /\ res' = "tree:" \o N(d)
    /\ UNCHANGED warnOn
(* Parse the dict of slot s, not changed since, once more into slot s2. *)
Again(s, s2) ==
    /\ Full(s) /\ s # s2 /\ inp[s] # None /\ heap[inp[s]] # "dirty"
    /\ LET o == IF COPIES THEN <<s2, "obj">> ELSE inp[s]
       IN  /\ heap' = [heap EXCEPT ![o] = heap[inp[s]]]
           /\ obj' = [obj EXCEPT ![s2] = o]
    /\ inp' = [inp EXCEPT ![s2] = None]
    /\ outp' = [outp EXCEPT ![s2] = None]
    /\ held' = [held EXCEPT ![s2] = held[s]]
    /\ res' = "tree:" \o heap[inp[s]]
    /\ UNCHANGED warnOn
(* Parse what serializing slot s returned into slot s2. *)
Back(s, s2) ==
    /\ Full(s) /\ s # s2 /\ outp[s] # None /\ heap[outp[s]] # "dirty"
    /\ LET o == IF COPIES THEN <<s2, "obj">> ELSE outp[s]
       IN  /\ heap' = [heap EXCEPT ![o] = heap[outp[s]]]
           /\ obj' = [obj EXCEPT ![s2] = o]
    /\ inp' = [inp EXCEPT ![s2] = None]
    /\ outp' = [outp EXCEPT ![s2] = None]
    /\ held' = [held EXCEPT ![s2] = held[s]]
    /\ res' = "tree:" \o heap[outp[s]]
    /\ UNCHANGED warnOn
SerializeS(s) ==
    /\ Full(s)
    /\ LET o == IF COPIES THEN <<s, "out">> ELSE obj[s]
       IN  /\ heap' = [heap EXCEPT ![o] = Seen(s)]
           /\ outp' = [outp EXCEPT ![s] = o]
    /\ res' = "ser:" \o Seen(s)
    /\ UNCHANGED <<obj, inp, held, warnOn>>
RenderS(s, mode) ==
    /\ Full(s) /\ res' = "md:" \o mode \o ":" \o Seen(s)
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
Look(s) ==
    /\ Full(s) /\ res' = "tree:" \o Seen(s)
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
(* Serialize and render every element of the document on its own, the        *)
(* caller changing each dict it gets at once.                                *)
Parts(s) ==
    /\ Full(s) /\ res' = "parts:" \o Seen(s)
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
(* Parse, serialize and render a document, and let go of it at once. *)
Once(d) ==
    /\ res' = "once:" \o N(d)
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
(* Serialize the document of slot s and render it in both modes. *)
Use(s) ==
    /\ Full(s) /\ res' = "use:" \o Seen(s)
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
(* A Once or Use that does not end: an interrupt, a lack of memory or of     *)
(* stack stops it at some point of its way.  It leaves nothing behind, so    *)
(* that where it stopped is no part of the state.                            *)
CutOnce(d) ==
    /\ res' = "cut"
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
CutUse(s) ==
    /\ Full(s) /\ res' = "cut"
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
(* The program lets go of a slot: its document and dicts are freed. *)
Drop(s) ==
    /\ Full(s) /\ res' = "done"
    /\ obj' = [obj EXCEPT ![s] = None]
    /\ inp' = [inp EXCEPT ![s] = None]
    /\ outp' = [outp EXCEPT ![s] = None]
    /\ held' = [held EXCEPT ![s] = "none"]
    /\ UNCHANGED <<heap, warnOn>>
(* The caller changes every place of a dict it owns. *)
MutIn(s) ==
    /\ Full(s) /\ inp[s] # None /\ heap' = [heap EXCEPT ![inp[s]] = "dirty"] /\ res' = "done"
    /\ UNCHANGED <<obj, inp, outp, held, warnOn>>
MutOut(s) ==
    /\ Full(s) /\ outp[s] # None /\ heap' = [heap EXCEPT ![outp[s]] = "dirty"] /\ res' = "done"
    /\ UNCHANGED <<obj, inp, outp, held, warnOn>>
(* Assigning to any field of any element is rejected. *)
Assign(s) ==
    /\ Full(s) /\ res' = "rejected"
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
(* A parse that raises. *)
Fail(b) ==
    /\ res' = "bad:" \o N(b)
    /\ UNCHANGED <<heap, obj, inp, outp, held, warnOn>>
Toggle(v) ==
    /\ warnOn' = v /\ res' = "done"
    /\ UNCHANGED <<heap, obj, inp, outp, held>>

Op(op, s, d) ==
    CASE op = "parse" -> Parse(s, d)
      [] op = "again" -> \E s2 \in Slots : s2 = d /\ Again(s, s2)
      [] op = "back"  -> \E s2 \in Slots : s2 = d /\ Back(s, s2)
      [] op = "ser"   -> SerializeS(s)
      [] op = "strict" -> RenderS(s, "s")
      [] op = "tolerant" -> RenderS(s, "g")
      [] op = "look"  -> Look(s)
      [] op = "parts" -> Parts(s)
      [] op = "drop"  -> Drop(s)
      [] op = "once"  -> Once(d)
      [] op = "use"   -> Use(s)
      [] op = "cutonce" -> CutOnce(d)
      [] op = "cutuse" -> CutUse(s)
      [] op = "mutin" -> MutIn(s)
      [] op = "mutout" -> MutOut(s)
      [] op = "assign" -> Assign(s)
      [] op = "fail"  -> Fail(d)
      [] op = "on"    -> Toggle(TRUE)
      [] op = "off"   -> Toggle(FALSE)

---------------------------------------------------------------------------
(* Every slot shows the document that was parsed into it. *)
Isolated == \A s \in Slots : Full(s) => Seen(s) = held[s]
=============================================================================
