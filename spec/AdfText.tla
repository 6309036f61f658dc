------------------------------ MODULE AdfText ------------------------------
(* Operators on text.  A text is a TLA+ string; a line is a maximal piece    *)
(* between "\n" characters (so a text always has at least one line).         *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

(* Replace every (leftmost, non overlapping) occurrence of a in s by b. *)
Replace(s, a, b) == ReplaceAllSubSeqs(b, a, s)
Has(s, a) == a = "" \/ Replace(s, a, "") # s

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN s
                ELSE LET h == Repeat(s, n \div 2) IN h \o h \o Repeat(s, n % 2)

Lines(s) ==
    LET cut == SetToSortSeq({i \in 1..Len(s) : Ch(s, i) = "\n"}, <)
        at(k) == IF k = 0 THEN 0 ELSE IF k > Len(cut) THEN Len(s) + 1 ELSE cut[k]
    IN  [k \in 1..(Len(cut) + 1) |-> SubSeq(s, at(k - 1) + 1, at(k) - 1)]

(* The parts i..j of a list, in halves: the strings made on the way are short. *)
RECURSIVE Glue(_, _, _, _)
Glue(lst, sep, i, j) ==
    IF i = j THEN lst[i]
    ELSE LET m == (i + j) \div 2
         IN  Glue(lst, sep, i, m) \o sep \o Glue(lst, sep, m + 1, j)
Join(lst, sep) == IF lst = <<>> THEN "" ELSE Glue(lst, sep, 1, Len(lst))

Concat(lst) == Join(lst, "")

LStripOf(s, ws) ==
    IF s = "" \/ Ch(s, 1) \notin ws THEN s
    ELSE LET keep == {i \in 1..Len(s) : Ch(s, i) \notin ws}
         IN  IF keep = {} THEN "" ELSE From(s, Min(keep))

RStripOf(s, ws) ==
    IF s = "" \/ Ch(s, Len(s)) \notin ws THEN s
    ELSE LET keep == {i \in 1..Len(s) : Ch(s, i) \notin ws}
         IN  IF keep = {} THEN "" ELSE Upto(s, Max(keep))

(* At most one blank line in a row. *)
RECURSIVE Collapse(_)
Collapse(s) == LET t == Replace(s, "\n\n\n", "\n\n")
               IN  IF t = s THEN s ELSE Collapse(t)

(* Prefix every line; a final "\n" ends the last line and opens no new one.  *)
PrefixLines(s, p) ==
    IF s = "" THEN ""
    ELSE IF EndsWith(s, "\n")
         THEN p \o Replace(Upto(s, Len(s) - 1), "\n", "\n" \o p) \o "\n"
         ELSE p \o Replace(s, "\n", "\n" \o p)
=============================================================================
