------------------------------ MODULE MC_Purge ------------------------------
(***************************************************************************)
(* All short texts over pieces of language marks, and all combinations of   *)
(* custom values: laws of the clean-up functions, and the cases for the     *)
(* program.                                                                 *)
(***************************************************************************)
EXTENDS Purge, Json, IOUtils
CONSTANTS MaxPieces

Pieces == {"[lang=de]", "[/lang=de]", "[//lang=x]", "[lang=", "]", "[", "/", "lang=de", "x", "\n"}
VARIABLES s, pieces, cust     \* a text, what it is made of; custom values
vars == <<s, pieces, cust>>
Vals == {NULL, "", "v"}
None == [link |-> NULL, birth |-> NULL, death |-> NULL, arcs |-> NULL, mode |-> NULL, place |-> NULL]
Combos == [link : Vals, birth : Vals, death : Vals, arcs : Vals, mode : {NULL, "0", "1"}, place : {NULL, "v"}]
Init == \/ s = "" /\ pieces = <<>> /\ cust = None
        \/ s = "x" /\ pieces = <<>> /\ cust \in Combos \ {None}
Next == cust = None /\ Len(pieces) < MaxPieces /\ \E p \in Pieces : s' = s \o p /\ pieces' = Append(pieces, p) /\ UNCHANGED cust
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ language marks
Occurs(x, i, p) == i + Len(p) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(p) - 1) = p
\* where there could be a mark: "[", any number of "/", "lang=", whatever is on the line, up to the first "]"
Could == {p \in {i \in 1..Len(s) : Ch(s, i) = "["} \X {i \in 1..Len(s) : Ch(s, i) = "]"} :
            /\ p[1] < p[2]
            /\ \E j \in (p[1] + 1)..p[2] : /\ \A k \in (p[1] + 1)..(j - 1) : Ch(s, k) = "/"
                                           /\ Occurs(s, j, "lang=")
                                           /\ j + 4 < p[2]
                                           /\ \A k \in (j + 5)..(p[2] - 1) : Ch(s, k) \notin {"]", "\n"}}
\* of overlapping ones, the one that begins first is it
RECURSIVE IsMark(_, _)
IsMark(p, C) == ~\E q \in C : q[1] < p[1] /\ p[1] <= q[2] /\ IsMark(q, C)
Left(M) == Concat([i \in 1..Len(s) |-> IF \E p \in M : p[1] <= i /\ i <= p[2] THEN <<>> ELSE <<Ch(s, i)>>])
\* exactly the marks disappear
Exact == LET C == Could IN WithoutMarks(s) = Join0(Left({p \in C : IsMark(p, C)}))
\* whole marks between other text leave that text as it is
Whole == {"[lang=de]", "[/lang=de]", "[//lang=x]"}
Simple == (\A i \in DOMAIN pieces : pieces[i] \in Whole \cup {"x", "\n", "]", "/"}) /\ cust = None /\ pieces # <<>> =>
    WithoutMarks(s) = Join0(SelectSeq(pieces, LAMBDA p : p \notin Whole))
Novel0(x) == [scs |-> <<[content |-> x]>>]
Told == HasMarks(Novel0(s)) <=> Could # {}

\* ------------------------------------------------ custom values
NovelOf(c) ==
    [prj |-> [title |-> "N"], pns |-> <<>>, chs |-> <<>>,
     crs |-> <<[id |-> "1", title |-> "C", link |-> c.link, birth |-> c.birth, death |-> c.death, aka |-> "k"]>>,
     lcs |-> <<[id |-> "1", title |-> "L", link |-> c.place, aka |-> "k"]>>, its |-> <<>>,
     scs |-> <<[id |-> "1", title |-> "S", content |-> "x", arcs |-> c.arcs, mode |-> c.mode]>>]
N0 == NovelOf(cust)
N1 == ResetCustom(N0)
Some == "v" \in {cust.link, cust.birth, cust.death, cust.arcs, cust.place} \/ cust.mode = "1"
Found == HasCustom(N0) <=> Some
Gone == ~HasCustom(N1) /\ ~HasCustom(Shown(N1))
Rest == /\ N1.prj = N0.prj /\ N1.chs = N0.chs /\ N1.crs[1].title = "C" /\ N1.crs[1].aka = "k" /\ N1.lcs[1].title = "L" /\ N1.lcs[1].aka = "k"
        /\ N1.scs[1].title = "S" /\ N1.scs[1].content = "x"
Once == ResetCustom(N1) = N1

\* ------------------------------------------------ the cases for the program
Seqs == UNION {[1..m -> Pieces] : m \in 1..MaxPieces}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<[texts |-> SetToSeq({Join0(q) : q \in Seqs}), custom |-> SetToSeq(Combos)]>>)
=============================================================================
