------------------------------ MODULE MC_Xref -------------------------------
(***************************************************************************)
(* All small casts: scenes with characters, a location, an item, and tags,  *)
(* of two types, over one chapter or more. Laws of the cross reference, and *)
(* the cases for the program.                                               *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils
CONSTANTS MaxScenes

Casts == {<<>>, <<"1">>, <<"2", "1">>}
TagPicks == {<<>>, <<"x">>, <<"y", "x">>}
Picks == [chars : Casts, at : {"", "l", "li"}, tags : TagPicks, typ : {"0", "3"}, begins : BOOLEAN]

VARIABLES tagged, scs, X   \* whether the elements are tagged, the scenes so far, the cross reference
vars == <<tagged, scs, X>>
No(k) == ToString(k)
ScId(k) == ToString(13 - k)      \* IDs are no numbers of scenes
ChapterNo(ps, k) == Cardinality({i \in 1..k : ps[i].begins})
SceneOf(p, k) ==
    [id |-> ScId(k), title |-> "s" \o No(k), desc |-> NULL, content |-> "c", typ |-> p.typ, dne |-> "F", status |-> "1", notes |-> NULL,
     tags |-> p.tags, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, app |-> "F", date |-> NULL, time |-> NULL, day |-> NULL,
     ld |-> NULL, lh |-> NULL, lm |-> NULL, react |-> "F", sub |-> "F", goal |-> NULL, conf |-> NULL, outc |-> NULL, img |-> NULL,
     chars |-> p.chars, locs |-> IF p.at # "" THEN <<"1">> ELSE <<>>, items |-> IF p.at = "li" THEN <<"1">> ELSE <<>>, arcs |-> NULL, mode |-> NULL]
Elem0(id, t, tags) == [id |-> id, title |-> t, desc |-> NULL, img |-> NULL, aka |-> NULL, tags |-> tags, link |-> NULL]
Char0(id, t, full, tags) == Elem0(id, t, tags) @@ [birth |-> NULL, death |-> NULL, notes |-> NULL, bio |-> NULL, goals |-> NULL, full |-> full, major |-> "F"]
Novel(t, ps) ==
    LET n == IF ps = <<>> THEN 0 ELSE ChapterNo(ps, Len(ps))
    IN [prj |-> [title |-> "T", desc |-> NULL, author |-> "A", bio |-> NULL, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, wcs |-> NULL,
                 wt |-> NULL, lang |-> NULL, country |-> NULL, languages |-> NOLST],
        crs |-> <<Char0("2", "ann", NULL, IF t THEN <<"q", "x">> ELSE <<>>), Char0("1", "bob", "Bob B.", IF t THEN <<"x">> ELSE NOLST)>>,
        lcs |-> <<Elem0("1", "loft", IF t THEN <<"x">> ELSE <<>>)>>, its |-> <<Elem0("1", "lamp", <<>>)>>, pns |-> <<>>,
        scs |-> [k \in DOMAIN ps |-> SceneOf(ps[k], k)],
        chs |-> [c \in 1..n |-> [id |-> No(c), title |-> "ch" \o No(c), desc |-> NULL, lev |-> "0", typ |-> "0", supT |-> "F", supB |-> "F", trash |-> "F",
                                 scs |-> Map(SelectSeq([k \in DOMAIN ps |-> k], LAMBDA k : ChapterNo(ps, k) = c), ScId)]]]
Init == tagged \in BOOLEAN /\ scs = <<>> /\ X = Xref(Novel(tagged, <<>>), "p")
Next == Len(scs) < MaxScenes /\ \E p \in Picks : /\ (scs = <<>> => p.begins) /\ scs' = Append(scs, p) /\ UNCHANGED tagged
                                               /\ X' = Xref(Novel(tagged, scs'), "p")
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ laws
Text(b) == Join0(Map(b.r, LAMBDA r : r.x))
Heads(bs) == SelectSeq(bs, LAMBDA b : b.k = "h2")
\* the lines below the heading
RECURSIVE Below(_, _)
Below(bs, i) == IF i > Len(bs) \/ bs[i].k = "h2" THEN <<>> ELSE <<Text(bs[i])>> \o Below(bs, i + 1)
Under(bs, h) == LET I == {i \in DOMAIN bs : bs[i].k = "h2" /\ Text(bs[i]) = h} IN IF I = {} THEN <<>> ELSE Below(bs, Min(I) + 1)
Line(k) == No(k) \o " (Ch " \o No(ChapterNo(scs, k)) \o ") s" \o No(k) \o (IF scs[k].typ = "3" THEN " (Unused)" ELSE "")
Having(P(_)) == Map(SelectSeq([k \in DOMAIN scs |-> k], P), Line)
\* every appearance is listed once, in reading order, with its place in the novel
Appearances ==
    /\ Under(X, "Scenes with Character ann:") = Having(LAMBDA k : "2" \in Range2(scs[k].chars))
    /\ Under(X, "Scenes with Character bob:") = Having(LAMBDA k : "1" \in Range2(scs[k].chars))
    /\ Under(X, "Scenes with Location loft:") = Having(LAMBDA k : scs[k].at # "")
    /\ Under(X, "Scenes with Item lamp:") = Having(LAMBDA k : scs[k].at = "li")
    /\ Under(X, "Scenes tagged x:") = Having(LAMBDA k : "x" \in Range2(scs[k].tags))
    /\ Under(X, "Scenes tagged y:") = Having(LAMBDA k : "y" \in Range2(scs[k].tags))
ElementTags ==
    /\ Under(X, "Characters tagged q:") = (IF tagged THEN <<"ann">> ELSE <<>>)
    /\ Under(X, "Characters tagged x:") = (IF tagged THEN <<"ann", "bob Bob B.">> ELSE <<>>)
    /\ Under(X, "Locations tagged x:") = (IF tagged THEN <<"loft">> ELSE <<>>)
\* nothing else is listed, nothing twice, and no heading stands alone
Nothing == LET H1 == Map(Heads(X), Text)
           IN /\ NoDup(H1)
              /\ \A i \in DOMAIN H1 : Under(X, H1[i]) # <<>>
              /\ Range2(H1) \subseteq {"Scenes with Character ann:", "Scenes with Character bob:", "Scenes with Location loft:", "Scenes with Item lamp:",
                                       "Scenes tagged x:", "Scenes tagged y:", "Characters tagged q:", "Characters tagged x:", "Locations tagged x:"}
              /\ (X # <<>> => X[1].k = "h2")
Targets == \A i \in DOMAIN X : \A j \in DOMAIN X[i].r : LET a == X[i].r[j].a IN
    a # "" => \/ \E k \in DOMAIN scs : scs[k].typ = "0" /\ a = "../p_manuscript.odt#ScID:" \o ScId(k) \o "|region" /\ StartsWith(Text(X[i]), No(k))
              \/ a \in {"../p_characters.odt#CrID:2|region", "../p_characters.odt#CrID:1|region", "../p_locations.odt#LcID:1|region"}
LinkOf(b) == IF \E j \in DOMAIN b.r : b.r[j].a # "" THEN (CHOOSE r \in Range2(b.r) : r.a # "").a ELSE ""
Linked == \A i \in DOMAIN X : /\ (\E k \in DOMAIN scs : Text(X[i]) = Line(k) /\ scs[k].typ = "0") => LinkOf(X[i]) # ""
                              /\ Text(X[i]) \in {"ann", "bob Bob B.", "loft"} => LinkOf(X[i]) # ""

\* ------------------------------------------------ the cases for the program
Seqs == UNION {{q \in [1..m -> Picks] : q[1].begins} : m \in 1..MaxScenes}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({Novel(t, q) : t \in BOOLEAN, q \in Seqs}))
=============================================================================
