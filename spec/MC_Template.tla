----------------------------- MODULE MC_Template -----------------------------
(***************************************************************************)
(* All small chapters under all choices of defined templates and filters.   *)
(* Checks what an export promises whatever the templates are, and writes    *)
(* the cases for the program.                                               *)
(***************************************************************************)
EXTENDS Template, Json, IOUtils
CONSTANTS MaxScenes,
          EveryWay      \* whether templates are defined in every order, or each set of them in one

ScCases == {[typ |-> t, dne |-> d, app |-> a, code |-> c] :
              t \in {"0", "1", "2", "3"}, d \in {"F", "T"}, a \in {"F", "T"}, c \in {"", "<HTML>"}}
ScOf(typ) == {s \in ScCases : /\ (typ # "0" => s.typ = typ /\ s.dne = "F" /\ s.code = "")
                              /\ (s.typ # "0" => s.dne = "F" /\ s.code = "")
                              /\ (s.code # "" => s.dne = "F" /\ s.app = "F")}
RECURSIVE Seqs(_, _)
Seqs(S, k) == IF k = 0 THEN {<<>>} ELSE LET R == Seqs(S, k - 1) IN R \cup {Append(r, s) : r \in {q \in R : Len(q) = k - 1}, s \in S}
Chs == UNION {{[lev |-> v, typ |-> y, scs |-> q] : v \in {"0", "1"}, q \in Seqs(ScOf(y), MaxScenes)} : y \in {"0", "1", "2", "3"}}
\* which of the templates that decide whether something is shown, and how, are defined
Optional == {"part", "todoScene", "notesScene", "unusedScene", "notExportedScene", "firstScene", "appendedScene"}
TypesIn(c) == {c.typ} \cup {c.scs[i].typ : i \in DOMAIN c.scs}
\* choices that cannot matter for the chapter are not made
Matters(c) == {"firstScene"}
              \cup (IF c.lev = "1" /\ c.typ = "0" THEN {"part"} ELSE {})
              \cup (IF "1" \in TypesIn(c) THEN {"notesScene"} ELSE {}) \cup (IF "2" \in TypesIn(c) THEN {"todoScene"} ELSE {})
              \cup (IF "3" \in TypesIn(c) THEN {"unusedScene"} ELSE {})
              \cup (IF \E i \in DOMAIN c.scs : c.scs[i].dne = "T" THEN {"notExportedScene"} ELSE {})
              \cup (IF \E i \in DOMAIN c.scs : c.scs[i].app = "T" THEN {"appendedScene"} ELSE {})
Drops(c) == {{}} \cup {{i} : i \in DOMAIN c.scs}        \* the filter lets every scene through, or all but one
Cases == UNION {{[ch |-> c, defined |-> d, drop |-> x] : d \in SUBSET Matters(c), x \in Drops(c)} : c \in Chs}

Scene(i, c) == [id |-> i, title |-> "s" \o i, desc |-> "d" \o i, content |-> c.code \o "one two", typ |-> c.typ, dne |-> c.dne, status |-> "1",
                notes |-> NULL, tags |-> NOLST, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, app |-> c.app, date |-> NULL, time |-> NULL,
                day |-> NULL, ld |-> NULL, lh |-> NULL, lm |-> NULL, react |-> "F", sub |-> "F", goal |-> NULL, conf |-> NULL, outc |-> NULL,
                img |-> NULL, chars |-> NOLST, locs |-> NOLST, items |-> NOLST, arcs |-> NULL, mode |-> NULL]
Chapter(i, c, ids) == [id |-> i, title |-> "ch" \o i, desc |-> "D" \o i, lev |-> c.lev, typ |-> c.typ, supT |-> "F", supB |-> "F", trash |-> "F",
                       scs |-> ids]
Novel(c) ==
    LET k == Len(c.scs)
        last == [lev |-> "0", typ |-> "0", scs |-> <<>>]
    IN [prj |-> [title |-> "T", desc |-> NULL, author |-> "A", bio |-> NULL, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, wcs |-> NULL,
                 wt |-> NULL, lang |-> NULL, country |-> NULL, languages |-> NOLST],
        crs |-> <<>>, lcs |-> <<>>, its |-> <<>>, pns |-> <<>>,
        scs |-> [j \in 1..(k + 1) |-> Scene(ToString(j), IF j <= k THEN c.scs[j] ELSE [typ |-> "0", dne |-> "F", app |-> "F", code |-> ""])],
        chs |-> <<Chapter("1", c, [j \in 1..k |-> ToString(j)]), Chapter("2", last, <<ToString(k + 1)>>)>>]

Lit(x) == [t |-> "lit", x |-> x, r |-> x]
Ph(x) == [t |-> "ph", x |-> x, r |-> "$" \o x]
Tp(defined) ==
    [name \in {"header", "part", "chapter", "notesPart", "todoPart", "notesChapter", "todoChapter", "unusedChapter", "notExportedChapter", "scene",
               "firstScene", "appendedScene", "notesScene", "todoScene", "unusedScene", "notExportedScene", "divider", "chapterEnd",
               "unusedChapterEnd", "notExportedChapterEnd", "notesChapterEnd", "todoChapterEnd", "characterSection", "character",
               "locationSection", "location", "itemSection", "item", "projectNote", "footer"} |->
        IF name \in Optional /\ name \notin defined THEN <<>>
        ELSE IF name \in {"scene", "firstScene", "appendedScene", "notesScene", "todoScene", "unusedScene", "notExportedScene"}
             THEN <<Lit("["), Ph("ID"), Lit(":"), Ph("SceneNumber"), Lit(":"), Ph("WordsTotal"), Lit("]")>>
        ELSE IF name = "divider" THEN <<Lit("*")>>
        ELSE IF EndsWith(name, "End") THEN <<Lit("}"), Ph("ChapterNumber")>>
        ELSE <<Lit("{"), Ph("ID"), Lit(":"), Ph("ChapterNumber"), Lit(":")>>]

F == [name |-> "p", path |-> "/d"]
KeptOf(c, n) == [chs |-> <<"1", "2">>, scs |-> SelectSeq([i \in DOMAIN n.scs |-> ToString(i)], LAMBDA i : i \notin {ToString(x) : x \in c.drop}),
                 crs |-> <<>>, lcs |-> <<>>, its |-> <<>>]
OutOf(c, defined) == LET n == Novel(c.ch) IN BodyOf(n, F, Tp(defined), KeptOf(c, n))
Parse(x) == LET i == FindFrom(x, ":", 1) j == FindFrom(x, ":", i + 1)
            IN [id |-> SubSeq(x, 2, i - 1), no |-> SubSeq(x, i + 1, j - 1), total |-> SubSeq(x, j + 1, Len(x) - 1)]
TextsIn(o) == Map(SelectSeq(o, LAMBDA x : StartsWith(x, "[")), Parse)

\* a case, and what is written for it
VARIABLES case, out
vars == <<case, out>>
Begun == UNION {{[ch |-> c, defined |-> {}, drop |-> x] : x \in Drops(c)} : c \in Chs}
Init == /\ case \in Begun
        /\ out = LET o == OutOf(case, case.defined)
                 IN [texts |-> TextsIn(o), starts |-> SelectSeq(o, LAMBDA x : StartsWith(x, "{")), ends |-> SelectSeq(o, LAMBDA x : StartsWith(x, "}")),
                     dividers |-> Len(SelectSeq(o, LAMBDA x : x = "*"))]
\* define one more template
Rank == <<"part", "todoScene", "notesScene", "unusedScene", "notExportedScene", "firstScene", "appendedScene">>
Next == \E x \in Matters(case.ch) \ case.defined :
            /\ EveryWay \/ \A y \in case.defined : IndexOf(y, Rank) < IndexOf(x, Rank)
            /\ case' = [case EXCEPT !.defined = @ \cup {x}]
            /\ out' = LET o == OutOf(case', case'.defined)
                      IN [texts |-> TextsIn(o), starts |-> SelectSeq(o, LAMBDA y : StartsWith(y, "{")), ends |-> SelectSeq(o, LAMBDA y : StartsWith(y, "}")),
                          dividers |-> Len(SelectSeq(o, LAMBDA y : y = "*"))]
Spec == Init /\ [][Next]_vars

IdsIn(o) == Map(o.texts, LAMBDA x : x.id)
\* no scene is written twice, and they keep their order
InOrder == \A i, j \in DOMAIN out.texts : i < j => NatOf(out.texts[i].id) < NatOf(out.texts[j].id)
\* what the filter holds back is not written
Filtered == \A i \in DOMAIN out.texts : out.texts[i].id \notin {ToString(x) : x \in case.drop}
\* the numbers of the counted scenes are consecutive, and the totals are those of the scenes so far
Numbered == LET ns == SelectSeq(Map(out.texts, LAMBDA x : x.no), LAMBDA x : x # "") IN ns = [i \in DOMAIN ns |-> ToString(i)]
Totals == \A i \in DOMAIN out.texts : out.texts[i].total = ToString(2 * Cardinality({j \in 1..i : out.texts[j].no # ""}))
\* a counted scene is one that belongs to the novel; every such scene is counted unless its chapter says otherwise
Meant(i) == i > Len(case.ch.scs) \/ (LET s == case.ch.scs[i] IN s.typ = "0" /\ s.dne = "F" /\ s.code = "" /\ case.ch.typ = "0")
Counted == /\ \A i \in DOMAIN out.texts : out.texts[i].no # "" => (case.ch.typ # "3" => LET k == NatOf(out.texts[i].id)
                                                                     IN k > Len(case.ch.scs) \/ (case.ch.scs[k].typ = "0" /\ case.ch.scs[k].dne = "F"))
           /\ \A i \in DOMAIN out.texts : LET k == NatOf(out.texts[i].id) IN k > Len(case.ch.scs) \/ case.ch.scs[k].code = ""
           /\ \A k \in 1..(Len(case.ch.scs) + 1) : (Meant(k) /\ k \notin case.drop) =>
                   \E i \in DOMAIN out.texts : out.texts[i].id = ToString(k) /\ out.texts[i].no # ""
\* as many scenes are divided off as there are scenes neither first in their chapter nor appended
Own(x) == IF x.id = ToString(Len(case.ch.scs) + 1) THEN "2" ELSE "1"     \* the chapter of a scene
Appended(x) == LET k == NatOf(x.id) IN k <= Len(case.ch.scs) /\ case.ch.scs[k].app = "T"
Divided2 == out.dividers = Cardinality({i \in DOMAIN out.texts : i > 1 /\ Own(out.texts[i]) = Own(out.texts[i - 1]) /\ ~Appended(out.texts[i])})
\* every chapter ends once, with the number it has begun with
Paired == Len(out.starts) <= 2 /\ Len(out.ends) = 2
          /\ (Len(out.starts) = 2 => \A i \in 1..2 : SubSeq(out.starts[i], 4, Len(out.starts[i]) - 1) = SubSeq(out.ends[i], 2, Len(out.ends[i])))
\* defining one more template never hides anything
Monotone == [][Range2(IdsIn(out)) \subseteq Range2(IdsIn(out'))]_vars

ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
