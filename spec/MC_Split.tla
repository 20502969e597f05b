------------------------------ MODULE MC_Split ------------------------------
(***************************************************************************)
(* All ways to spread up to MaxLines lines of text and dividers over the    *)
(* three scenes of two chapters: laws of splitting, and the cases for the   *)
(* program.                                                                 *)
(***************************************************************************)
EXTENDS Import, Json, IOUtils
CONSTANTS MaxLines
Codes == {"t", "e", "P", "C", "S", "s"}

VARIABLES s, j, n      \* the codes of each scene, the scene that gets the next line, the number of lines
vars == <<s, j, n>>
Init == s = <<<<>>, <<>>, <<>>>> /\ j = 1 /\ n = 0
AddLine == n < MaxLines /\ n' = n + 1 /\ j' = j /\ \E c \in Codes : s' = [s EXCEPT ![j] = Append(s[j], c)]
NextScene == j < 3 /\ j' = j + 1 /\ UNCHANGED <<s, n>>
Next == AddLine \/ NextScene
Spec == Init /\ [][Next]_vars

LineOf(c, a, b) ==
    LET x == ToString(a) \o ToString(b)
    IN CASE c = "t" -> "t" \o x [] c = "e" -> "" [] c = "P" -> "# P" \o x [] c = "C" -> "## C" \o x \o "|d" \o x
         [] c = "S" -> "###S" \o x \o " | d" \o x [] c = "s" -> "###"
Raw(q, a) == [b \in DOMAIN q |-> LineOf(q[b], a, b)]
AsLine(x) == [q |-> FALSE, r |-> IF x = "" THEN <<>> ELSE <<PlainT(x)>>]
Novel ==
    [EmptyProject EXCEPT
        !.scs = [a \in 1..3 |-> [BlankScene(ToString(a + 1)) EXCEPT !.title = "T" \o ToString(a), !.desc = IF a = 2 THEN "D" ELSE NULL, !.status = ToString(a + 1), !.typ = "0"]],
        !.chs = <<[BlankChapter("3") EXCEPT !.title = "A", !.lev = "0", !.typ = "0", !.scs = <<"2", "3">>],
                  [BlankChapter("1") EXCEPT !.title = "B", !.lev = "0", !.typ = "0", !.scs = <<"4">>]>>]
Texts == "2" :> Map(Raw(s[1], 1), AsLine) @@ "3" :> Map(Raw(s[2], 2), AsLine) @@ "4" :> Map(Raw(s[3], 3), AsLine)
Res == SplitAll(Novel, Texts)

AllCodes == s[1] \o s[2] \o s[3]
CountOf(P(_)) == Cardinality({i \in DOMAIN AllCodes : P(AllCodes[i])})
Marks == {"P", "C", "S", "s"}
Reading(x) == Concat(Map(x.n.chs, LAMBDA c : c.scs))
PlainLines(ls) == Map(ls, LAMBDA ln : PlainRuns(ln.r))
TextRead(x) == Concat(Map(Reading(x), LAMBDA id : PlainLines(x.txt[id])))
Before == Raw(s[1], 1) \o Raw(s[2], 2) \o Raw(s[3], 3)

\* no text is lost, doubled or moved
SameText == TextRead(Res) = SelectSeq(Before, LAMBDA x : ~StartsWith(x, "#"))
\* exactly the marked pieces
AfterHead(q) == Cardinality({i \in DOMAIN q : i > 1 /\ q[i - 1] \in {"P", "C"} /\ q[i] \notin Marks})
Structure == /\ Len(Res.n.chs) = 2 + CountOf(LAMBDA c : c \in {"P", "C"})
             /\ Len(Res.n.scs) = 3 + CountOf(LAMBDA c : c \in {"S", "s"}) + AfterHead(s[1]) + AfterHead(s[2]) + AfterHead(s[3])
             /\ Res.split = (CountOf(LAMBDA c : c \in Marks) > 0)
Valid == /\ NoDup(Map(Res.n.chs, LAMBDA c : c.id)) /\ NoDup(Map(Res.n.scs, LAMBDA x : x.id))
         /\ NoDup(Reading(Res)) /\ Range2(Reading(Res)) = IdSet(Res.n.scs)
         /\ DOMAIN Res.txt = IdSet(Res.n.scs)
\* what was there keeps its place
KeepsPlace == /\ SelectSeq(Reading(Res), LAMBDA id : id \in {"2", "3", "4"}) = <<"2", "3", "4">>
              /\ SelectSeq(Map(Res.n.chs, LAMBDA c : c.id), LAMBDA id : id \in {"1", "3"}) = <<"3", "1">>
              /\ ById(Res.n.chs, "1").title = "B" /\ \A i \in {"2", "3", "4"} : ById(Res.n.scs, i).title = ById(Novel.scs, i).title
              /\ (LET c == ById(Res.n.chs, "3").scs IN c # <<>> /\ c[1] = "2")
\* titles and descriptions are taken over in reading order
TitlesOf(c, l) == SelectSeq(Map(l, LAMBDA x : x.title), LAMBDA x : StartsWith(x, c) /\ Len(x) = 3)
Given(c) == Map(SelectSeq(Before, LAMBDA x : StartsWith(StripMarks(x), c) /\ StartsWith(x, "#")), LAMBDA x : SubSeq(StripMarks(x), 1, 3))
Titles == /\ TitlesOf("C", Res.n.chs) = Given("C") /\ TitlesOf("P", Res.n.chs) = Given("P")
          /\ Map(SelectSeq(Reading(Res), LAMBDA id : StartsWith(ById(Res.n.scs, id).title, "S")), LAMBDA id : SubSeq(ById(Res.n.scs, id).title, 1, 3)) = Given("S")
\* splitting what has been split changes nothing
Stable == LET again == SplitAll(Res.n, Res.txt) IN again.n = Res.n /\ again.txt = Res.txt /\ ~again.split

RECURSIVE Lists(_)
Lists(k) == IF k = 0 THEN {<<>>} ELSE LET R == Lists(k - 1) IN R \cup {Append(r, c) : r \in R, c \in Codes}
Cases == {<<a, b, c>> \in Lists(MaxLines) \X Lists(MaxLines) \X Lists(MaxLines) : Len(a) + Len(b) + Len(c) <= MaxLines}
CaseLines(c) == Map(<<1, 2, 3>>, LAMBDA a : Raw(c[a], a))
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<Map(SetToSeq(Cases), CaseLines)>>)
=============================================================================
