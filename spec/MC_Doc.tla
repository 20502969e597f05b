------------------------------- MODULE MC_Doc -------------------------------
(***************************************************************************)
(* All small chapters: level, type, and up to MaxScenes scenes of any type  *)
(* with any flags.  Checks what the kinds of documents have in common, and  *)
(* writes the cases for the program.                                        *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils
CONSTANTS MaxScenes

ScCases == {[typ |-> t, dne |-> d, app |-> a, code |-> c] :
              t \in {"0", "1", "2", "3"}, d \in {"F", "T"}, a \in {"F", "T"}, c \in {"", "<HTML>", "<TEX>"}}
\* flags that cannot matter are not varied
ScOf(typ) == {s \in ScCases : /\ (typ # "0" => s.typ = typ /\ s.dne = "F" /\ s.code = "")
                              /\ (s.typ # "0" => s.dne = "F" /\ s.code = "")
                              /\ (s.code # "" => s.dne = "F" /\ s.app = "F")}
RECURSIVE Seqs(_, _)
Seqs(S, k) == IF k = 0 THEN {<<>>} ELSE LET R == Seqs(S, k - 1) IN R \cup {Append(r, s) : r \in {q \in R : Len(q) = k - 1}, s \in S}
Chs == UNION {{[lev |-> v, typ |-> y, scs |-> q] : v \in {"0", "1"}, q \in Seqs(ScOf(y), MaxScenes)} : y \in {"0", "1", "2", "3"}}

Scene(i, c) == [id |-> i, title |-> "s" \o i, desc |-> "d" \o i, content |-> c.code \o "c" \o i, typ |-> c.typ, dne |-> c.dne, status |-> "1",
                notes |-> NULL, tags |-> NOLST, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, app |-> c.app, date |-> NULL, time |-> NULL,
                day |-> NULL, ld |-> NULL, lh |-> NULL, lm |-> NULL, react |-> "F", sub |-> "F", goal |-> NULL, conf |-> NULL, outc |-> NULL,
                img |-> NULL, chars |-> NOLST, locs |-> NOLST, items |-> NOLST, arcs |-> NULL, mode |-> NULL]
Chapter(i, c, ids) == [id |-> i, title |-> "ch" \o i, desc |-> "D" \o i, lev |-> c.lev, typ |-> c.typ, supT |-> "F", supB |-> "F", trash |-> "F",
                       scs |-> ids]
\* the chapter, followed by a plain one
Novel(c) ==
    LET k == Len(c.scs)
        last == [lev |-> "0", typ |-> "0", scs |-> <<>>]
    IN [prj |-> [title |-> "T", desc |-> NULL, author |-> "A", bio |-> NULL, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, wcs |-> NULL,
                 wt |-> NULL, lang |-> NULL, country |-> NULL, languages |-> NOLST],
        crs |-> <<>>, lcs |-> <<>>, its |-> <<>>, pns |-> <<>>,
        scs |-> [j \in 1..(k + 1) |-> Scene(ToString(j), IF j <= k THEN c.scs[j] ELSE [typ |-> "0", dne |-> "F", app |-> "F", code |-> ""])],
        chs |-> <<Chapter("1", c, [j \in 1..k |-> ToString(j)]), Chapter("2", last, <<ToString(k + 1)>>)>>]

VARIABLES case
Init == case \in Chs
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

N == Novel(case)
B(kind) == Blocks(kind, N, "p")
Depth(bs, i) == Cardinality({j \in 1..i : bs[j].k = "sec"}) - Cardinality({j \in 1..i : bs[j].k = "end"})
\* sections are properly nested, and no deeper than chapter and scene
Nested == \A kind \in TEXTDOCS :
    LET bs == B(kind) IN /\ \A i \in DOMAIN bs : Depth(bs, i) \in 0..2
                         /\ (bs # <<>> => Depth(bs, Len(bs)) = 0)
SecsOf(kind) == SelectSeq(Map(B(kind), LAMBDA b : IF b.k = "sec" THEN b.s ELSE ""), LAMBDA x : StartsWith(x, "ScID:"))
\* no section occurs twice; the same scene never occurs in two of the documents meant for different types
Once == /\ \A kind \in TEXTDOCS : NoDup(SecsOf(kind))
        /\ Range2(SecsOf("_manuscript")) \cap Range2(SecsOf("_notes")) = {}
        /\ Range2(SecsOf("_manuscript")) \cap Range2(SecsOf("_todo")) = {}
        /\ Range2(SecsOf("_notes")) \cap Range2(SecsOf("_todo")) = {}
\* what is not to be exported is not in the novel
Meant == \A i \in DOMAIN N.scs :
    LET s == N.scs[i]
        shown == \E j \in DOMAIN B("") : PlainBlock(B("")[j]) = Txt0(s.content)
    IN shown => s.typ = "0" /\ s.dne = "F" /\ (s.id # ToString(Len(N.scs)) => case.typ = "0")
\* a scene that is in the manuscript is in the proof, the synopsis and the scene descriptions and, counted, in the scene list
Agree == LET m == SecsOf("_manuscript") IN
    /\ SecsOf("_scenes") = m
    /\ Map(SelectSeq(B("_proof"), LAMBDA b : StartsWith(PlainBlock(b), "[ScID:")), LAMBDA b : SubSeq(PlainBlock(b), 2, Len(PlainBlock(b)) - 1)) = m
    /\ Map(ListedScenes(N), LAMBDA s : "ScID:" \o s.id) = m
    /\ Len(Rows("_scenelist", N, "p", "/d")) = Len(m) + 1
\* every chapter heading of the novel is in the manuscript, too
Headings(kind) == Map(SelectSeq(B(kind), LAMBDA b : b.k \in {"h1", "h2"}), PlainBlock)
SameHeadings == /\ Headings("") = Headings("_manuscript") /\ Headings("_proof") = Headings("") /\ Headings("_scenes") = Headings("")
                /\ Headings("_brf_synopsis") = Headings("")

ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Chs))
=============================================================================
