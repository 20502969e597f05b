------------------------------- MODULE Purge -------------------------------
(* Removing custom data and language markup from a project. *)
EXTENDS Yw7

\* "cleared": unlike "no value" this makes saving remove what the file holds
ClearElem(w) == [w EXCEPT !.link = ""]
ClearCharacter(w) == [w EXCEPT !.link = "", !.birth = "", !.death = ""]
ResetCustom(n) ==
    [n EXCEPT !.crs = Map(@, ClearCharacter), !.lcs = Map(@, ClearElem), !.its = Map(@, ClearElem),
              !.scs = Map(@, LAMBDA s : [s EXCEPT !.arcs = "", !.mode = ""])]
\* as it looks in memory
Shown(n) == [n EXCEPT !.scs = Map(@, LAMBDA s : [s EXCEPT !.arcs = T(s.arcs), !.mode = T(s.mode)])]

HasCustom(n) ==
    \/ \E i \in DOMAIN n.crs : T(n.crs[i].link) # NULL \/ T(n.crs[i].birth) # NULL \/ T(n.crs[i].death) # NULL
    \/ \E i \in DOMAIN n.lcs : T(n.lcs[i].link) # NULL
    \/ \E i \in DOMAIN n.its : T(n.its[i].link) # NULL
    \/ \E i \in DOMAIN n.scs : T(n.scs[i].arcs) # NULL \/ n.scs[i].mode \notin {NULL, "", "0"}
CustomFields == {"Field_SceneArcs", "Field_SceneMode", "Field_Link", "Field_BirthDate", "Field_DeathDate",
                 "Field_LanguageCode", "Field_CountryCode"}
FieldsIn(e) == {KidsIn(e, "Fields")[i].g : i \in DOMAIN KidsIn(e, "Fields")}
HasCustomIn(e) == FieldsIn(e) \cap CustomFields # {}
TreeHasCustom(root) ==
    \/ HasCustomIn(Kid(root, "PROJECT"))
    \/ \E sect \in {"SCENES", "CHAPTERS", "CHARACTERS", "LOCATIONS", "ITEMS"} :
         \E i \in DOMAIN KidsIn(root, sect) : HasCustomIn(KidsIn(root, sect)[i])

\* language marks: opening, closing, with any number of slashes
RECURSIVE Slashes(_, _)
Slashes(s, i) == IF i <= Len(s) /\ Ch(s, i) = "/" THEN Slashes(s, i + 1) ELSE i
MarkEnd(s, i) ==
    IF Ch(s, i) # "[" THEN 0
    ELSE LET j == Slashes(s, i + 1)
         IN IF ~(j + 4 <= Len(s) /\ SubSeq(s, j, j + 4) = "lang=") THEN 0
            ELSE LET ends == {k \in (j + 5)..Len(s) : Ch(s, k) = "]" /\ \A m \in (j + 5)..k : Ch(s, m) # "\n"}
                 IN IF ends = {} THEN 0 ELSE Min(ends)
RECURSIVE NoMarks(_, _, _)
NoMarks(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET e == MarkEnd(s, i) IN IF e # 0 THEN NoMarks(s, e + 1, acc) ELSE NoMarks(s, i + 1, acc \o Ch(s, i))
WithoutMarks(s) == IF s = NULL THEN NULL ELSE NoMarks(s, 1, "")
RemoveLanguages(n) == [n EXCEPT !.scs = Map(@, LAMBDA s : [s EXCEPT !.content = WithoutMarks(s.content)])]
HasMarks(n) == \E i \in DOMAIN n.scs : WithoutMarks(n.scs[i].content) # n.scs[i].content
=============================================================================
