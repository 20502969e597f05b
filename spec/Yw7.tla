-------------------------------- MODULE Yw7 --------------------------------
(***************************************************************************)
(* The yWriter 7 project file: what an element tree means (ReadProject),   *)
(* what a project is after it has been saved and read again (AfterSave),   *)
(* how types and flags are encoded, and what saving has to leave alone.    *)
(***************************************************************************)
EXTENDS Xml

-----------------------------------------------------------------------------
(* Scene start *)

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(s) == /\ Len(s) = 10 /\ Ch(s, 5) = "-" /\ Ch(s, 8) = "-"
                /\ AllDigits(SubSeq(s, 1, 4)) /\ AllDigits(SubSeq(s, 6, 7)) /\ AllDigits(SubSeq(s, 9, 10))
                /\ LET y == NatOf(SubSeq(s, 1, 4)) m == NatOf(SubSeq(s, 6, 7)) d == NatOf(SubSeq(s, 9, 10))
                   IN y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
\* hh:mm or hh:mm:ss
ValidTime(s) == /\ Len(s) \in {5, 8} /\ Ch(s, 3) = ":"
                /\ AllDigits(SubSeq(s, 1, 2)) /\ AllDigits(SubSeq(s, 4, 5))
                /\ NatOf(SubSeq(s, 1, 2)) < 24 /\ NatOf(SubSeq(s, 4, 5)) < 60
                /\ (Len(s) = 8 => Ch(s, 6) = ":" /\ AllDigits(SubSeq(s, 7, 8)) /\ NatOf(SubSeq(s, 7, 8)) < 60)
FullTime(s) == IF Len(s) = 5 THEN s \o ":00" ELSE s
NoStart == [date |-> NULL, time |-> NULL, day |-> NULL]

\* the meaning of a date/time stamp: date and time, or nothing usable
ReadStamp(s) ==
    IF s = NULL THEN [NoStart EXCEPT !.date = "", !.time = ""]
    ELSE IF ValidDate(s) THEN [NoStart EXCEPT !.date = s, !.time = "00:00:00"]
    ELSE IF Len(s) > 11 /\ ValidDate(SubSeq(s, 1, 10)) /\ ValidTime(SubSeq(s, 12, Len(s)))
         THEN [NoStart EXCEPT !.date = SubSeq(s, 1, 10), !.time = FullTime(SubSeq(s, 12, Len(s)))]
         ELSE [NoStart EXCEPT !.date = "", !.time = ""]

ReadStart(e) ==
    IF HasKid(e, "SpecificDateTime") THEN ReadStamp(KidText(e, "SpecificDateTime"))
    ELSE LET hour == IF HasKid(e, "Hour") THEN Pad2(IF KidText(e, "Hour") = NULL THEN "" ELSE KidText(e, "Hour")) ELSE "00"
             minute == IF HasKid(e, "Minute") THEN Pad2(IF KidText(e, "Minute") = NULL THEN "" ELSE KidText(e, "Minute")) ELSE "00"
         IN [date |-> NULL,
             time |-> IF HasKid(e, "Hour") \/ HasKid(e, "Minute") THEN hour \o ":" \o minute \o ":00" ELSE NULL,
             day  |-> IF ~HasKid(e, "Day") THEN NULL
                      ELSE IF IsInt(KidText(e, "Day")) THEN KidText(e, "Day") ELSE ""]

StartTags == {"SpecificDateTime", "SpecificDateMode", "Day", "Hour", "Minute"}

\* Saving the scene start: specific, unspecific, cleared, or left alone.
StartKind(s) == IF s.date # NULL /\ s.time # NULL
                THEN (IF s.date = "" /\ s.time = "" THEN "clear" ELSE "specific")
                ELSE IF s.day # NULL \/ s.time # NULL
                     THEN (IF T(s.day) = NULL /\ T(s.time) = NULL THEN "clear" ELSE "unspecific")
                     ELSE "keep"

WriteStart(e, s) ==
    CASE StartKind(s) = "clear" -> DropKids(e, StartTags)
      [] StartKind(s) = "specific" ->
            IF HasKid(e, "SpecificDateTime")
            THEN SetText(e, "SpecificDateTime", s.date \o " " \o FullTime(s.time))
            ELSE SetText(SetText(DropKids(e, {"Day", "Hour", "Minute"}),
                                 "SpecificDateTime", s.date \o " " \o s.time),
                         "SpecificDateMode", "-1")
      [] StartKind(s) = "unspecific" ->
            LET e1 == DropKids(e, {"SpecificDateTime", "SpecificDateMode"})
                e2 == IF s.day # NULL THEN SetText(e1, "Day", T(s.day)) ELSE e1
            IN IF s.time # NULL /\ s.time # ""
               THEN SetText(SetText(e2, "Hour", SubSeq(s.time, 1, 2)), "Minute", SubSeq(s.time, 4, 5))
               ELSE e2
      [] OTHER -> e

\* what a reader finds after saving start s over element e
StartAfterSave(e, s) == ReadStart(WriteStart(e, s))
\* ... and what the author must get back (seconds only exist in specific times)
StartMeant(e, s) ==
    CASE StartKind(s) = "clear" -> NoStart
      [] StartKind(s) = "specific" -> [date |-> s.date, time |-> FullTime(s.time), day |-> NULL]
      [] StartKind(s) = "unspecific" ->
            [date |-> NULL,
             time |-> IF T(s.time) # NULL THEN SubSeq(s.time, 1, 5) \o ":00"
                      ELSE IF HasKid(e, "Hour") \/ HasKid(e, "Minute")
                           THEN ReadStart(DropKids(e, {"SpecificDateTime"})).time ELSE NULL,
             day  |-> IF s.day # NULL THEN T(s.day)
                      ELSE T(ReadStart(DropKids(e, {"SpecificDateTime"})).day)]
      [] OTHER -> ReadStart(e)
TStart(r) == [date |-> T(r.date), time |-> T(r.time), day |-> T(r.day)]

-----------------------------------------------------------------------------
(* Scene and chapter types: 0 normal, 1 notes, 2 to do, 3 unused *)
Types == {"0", "1", "2", "3"}

ReadScType(e) ==
    LET f == SubText(e, "Fields", "Field_SceneType")
    IN IF f \in {"1", "2"} THEN f ELSE IF HasKid(e, "Unused") THEN "3" ELSE "0"

ReadChType(e) ==
    IF HasKid(e, "ChapterType")
    THEN LET c == KidText(e, "ChapterType")
         IN IF c \in {"1", "2"} THEN c ELSE IF HasKid(e, "Unused") THEN "3" ELSE "0"
    ELSE IF HasKid(e, "Type")
         THEN IF KidText(e, "Type") = "1" THEN "1" ELSE IF HasKid(e, "Unused") THEN "3" ELSE "0"
         ELSE "0"

\* how yWriter expects a type to be written
ScTypeCode(t) == [unused |-> t # "0", field |-> IF t = "1" THEN "1" ELSE IF t = "2" THEN "2"
                                                ELSE IF t = "3" THEN "0" ELSE NULL]
ChTypeCode(t) == [unused |-> t # "0", type |-> IF t = "0" THEN "0" ELSE "1",
                  chtype |-> IF t \in {"1", "2"} THEN t ELSE "0"]
TypeOrNormal(t) == IF t = NULL THEN "0" ELSE t

WriteScType(e, t0) ==
    LET t == TypeOrNormal(t0)
        e1 == IF t = "0" THEN DropKids(e, {"Unused"})
              ELSE IF HasKid(e, "Unused") THEN e ELSE SetText(e, "Unused", "-1")
    IN IF t = "0"
       THEN (IF HasKid(e1, "Fields")
             THEN [e1 EXCEPT !.k[Min(KidIdx(e1, "Fields"))] = DropKids(@, {"Field_SceneType"})] ELSE e1)
       ELSE LET e2 == IF HasKid(e1, "Fields") THEN e1 ELSE [e1 EXCEPT !.k = Append(@, Elem("Fields", NULL, <<>>))]
            IN [e2 EXCEPT !.k[Min(KidIdx(e2, "Fields"))] = SetText(@, "Field_SceneType", ScTypeCode(t).field)]

WriteChType(e, t0) ==
    LET t == TypeOrNormal(t0)
        e1 == IF t = "0" THEN DropKids(e, {"Unused"})
              ELSE IF HasKid(e, "Unused") THEN e ELSE SetText(e, "Unused", "-1")
    IN SetText(SetText(e1, "Type", ChTypeCode(t).type), "ChapterType", ChTypeCode(t).chtype)

\* export flag: a condition without "export" means "do not export"
ReadDne(e) == Bool(HasKid(e, "ExportCondSpecific") /\ ~HasKid(e, "ExportWhenRTF"))
WriteDne(e, d) ==
    IF d = NULL THEN e
    ELSE IF d = "T" THEN LET e1 == DropKids(e, {"ExportWhenRTF"})
                         IN IF HasKid(e1, "ExportCondSpecific") THEN e1
                            ELSE [e1 EXCEPT !.k = Append(@, Leaf("ExportCondSpecific", NULL))]
    ELSE IF HasKid(e, "ExportCondSpecific") /\ ~HasKid(e, "ExportWhenRTF")
         THEN SetText(e, "ExportWhenRTF", "-1") ELSE e

-----------------------------------------------------------------------------
(* Reading *)

TagsOf(e) == IF KidText(e, "Tags") = NULL THEN NOLST ELSE StringToList(KidText(e, "Tags"))
KnownRefs(e, sect, tag, known) ==
    LET refs == Map(SelectSeq(KidsIn(e, sect), LAMBDA c : c.g = tag), LAMBDA c : c.x)
    IN TL(SelectSeq(refs, LAMBDA r : InSeq(r, known)))

ReadScene(e, crIds, lcIds, itIds) ==
    LET st == ReadStart(e)
        md == SubText(e, "Fields", "Field_SceneMode")
    IN [ id |-> KidText(e, "ID"), title |-> KidText(e, "Title"), desc |-> KidText(e, "Desc"),
         content |-> KidText(e, "SceneContent"), typ |-> ReadScType(e), dne |-> ReadDne(e),
         status |-> IF HasKid(e, "Status") THEN ToString(IntOf(KidText(e, "Status"))) ELSE NULL,
         notes |-> KidText(e, "Notes"), tags |-> TagsOf(e),
         f1 |-> KidText(e, "Field1"), f2 |-> KidText(e, "Field2"),
         f3 |-> KidText(e, "Field3"), f4 |-> KidText(e, "Field4"),
         app |-> Bool(HasKid(e, "AppendToPrev")),
         date |-> st.date, time |-> st.time, day |-> st.day,
         ld |-> KidText(e, "LastsDays"), lh |-> KidText(e, "LastsHours"), lm |-> KidText(e, "LastsMinutes"),
         react |-> Bool(HasKid(e, "ReactionScene")), sub |-> Bool(HasKid(e, "SubPlot")),
         goal |-> KidText(e, "Goal"), conf |-> KidText(e, "Conflict"), outc |-> KidText(e, "Outcome"),
         img |-> KidText(e, "ImageFile"),
         chars |-> KnownRefs(e, "Characters", "CharID", crIds),
         locs |-> KnownRefs(e, "Locations", "LocID", lcIds),
         items |-> KnownRefs(e, "Items", "ItemID", itIds),
         arcs |-> SubText(e, "Fields", "Field_SceneArcs"),
         mode |-> IF IsInt(md) THEN ToString(IntOf(md)) ELSE NULL ]

ReadChapter(e, scIds) ==
    [ id |-> KidText(e, "ID"), title |-> KidText(e, "Title"), desc |-> KidText(e, "Desc"),
      lev |-> IF HasKid(e, "SectionStart") THEN "1" ELSE "0",
      typ |-> ReadChType(e),
      supT |-> Bool(\/ KidText(e, "Title") # NULL /\ StartsWith(KidText(e, "Title"), "@")
                    \/ SubText(e, "Fields", "Field_SuppressChapterTitle") = "1"),
      supB |-> Bool(SubText(e, "Fields", "Field_SuppressChapterBreak") = "1"),
      trash |-> Bool(SubText(e, "Fields", "Field_IsTrash") = "1"),
      scs |-> SelectSeq(Map(SelectSeq(KidsIn(e, "Scenes"), LAMBDA c : c.g = "ScID"), LAMBDA c : c.x),
                        LAMBDA r : r \in scIds) ]

ReadElement(e) ==
    [ id |-> KidText(e, "ID"), title |-> KidText(e, "Title"), desc |-> KidText(e, "Desc"),
      img |-> KidText(e, "ImageFile"), aka |-> KidText(e, "AKA"), tags |-> TagsOf(e),
      link |-> SubText(e, "Fields", "Field_Link") ]
ReadCharacter(e) ==
    [ id |-> KidText(e, "ID"), title |-> KidText(e, "Title"), desc |-> KidText(e, "Desc"),
      img |-> KidText(e, "ImageFile"), aka |-> KidText(e, "AKA"), tags |-> TagsOf(e),
      link |-> SubText(e, "Fields", "Field_Link"),
      birth |-> SubText(e, "Fields", "Field_BirthDate"), death |-> SubText(e, "Fields", "Field_DeathDate"),
      notes |-> KidText(e, "Notes"), bio |-> KidText(e, "Bio"), goals |-> KidText(e, "Goals"),
      full |-> KidText(e, "FullName"), major |-> Bool(HasKid(e, "Major")) ]
ReadNote(e) == [ id |-> KidText(e, "ID"), title |-> KidText(e, "Title"), desc |-> KidText(e, "Desc") ]

\* a scene in a chapter of a special type has the chapter's type (the last such chapter decides)
InheritedType(chs, sc) ==
    LET S == {i \in DOMAIN chs : chs[i].typ # "0" /\ InSeq(sc.id, chs[i].scs)}
    IN IF S = {} THEN sc.typ ELSE chs[Max(S)].typ

VarTitle(v) == KidText(v, "Title")
LastVar(vars, title, dflt) ==
    LET S == {i \in DOMAIN vars : VarTitle(vars[i]) = title /\ HasKid(vars[i], "Desc")}
    IN IF S = {} THEN dflt ELSE KidText(vars[Max(S)], "Desc")
IsLangVar(v) == /\ VarTitle(v) # NULL /\ StartsWith(VarTitle(v), "lang=")
                /\ Len(SplitAt(VarTitle(v), "=")) = 2
LangOf(v) == SplitAt(VarTitle(v), "=")[2]
VarLangs(vars) == TL(Map(SelectSeq(vars, IsLangVar), LangOf))

NumOr0(p, g) == IF ~HasKid(p, g) THEN NULL
                ELSE IF IsInt(KidText(p, g)) THEN ToString(IntOf(KidText(p, g))) ELSE "0"

ReadPrj(root) ==
    LET p == Kid(root, "PROJECT")
        vars == KidsIn(root, "PROJECTVARS")
    IN [ title |-> KidText(p, "Title"), desc |-> KidText(p, "Desc"),
         author |-> KidText(p, "AuthorName"), bio |-> KidText(p, "Bio"),
         f1 |-> KidText(p, "FieldTitle1"), f2 |-> KidText(p, "FieldTitle2"),
         f3 |-> KidText(p, "FieldTitle3"), f4 |-> KidText(p, "FieldTitle4"),
         wcs |-> NumOr0(p, "WordCountStart"), wt |-> NumOr0(p, "WordTarget"),
         lang |-> LastVar(vars, "Language", SubText(p, "Fields", "Field_LanguageCode")),
         country |-> LastVar(vars, "Country", SubText(p, "Fields", "Field_CountryCode")),
         languages |-> VarLangs(vars) ]

Ids(es) == Map(es, LAMBDA e : KidText(e, "ID"))

\* the whole project; locations, items, ... are kept in file order
ReadProject(root) ==
    LET crs == KidsIn(root, "CHARACTERS")
        lcs == KidsIn(root, "LOCATIONS")
        its == KidsIn(root, "ITEMS")
        raw == Map(KidsIn(root, "SCENES"), LAMBDA e : ReadScene(e, Ids(crs), Ids(lcs), Ids(its)))
        scIds == {raw[i].id : i \in DOMAIN raw}
        chs == Map(KidsIn(root, "CHAPTERS"), LAMBDA e : ReadChapter(e, scIds))
    IN [ prj |-> ReadPrj(root),
         crs |-> Map(crs, ReadCharacter), lcs |-> Map(lcs, ReadElement), its |-> Map(its, ReadElement),
         pns |-> Map(SelectSeq(KidsIn(root, "PROJECTNOTES"), LAMBDA e : HasKid(e, "ID")), ReadNote),
         chs |-> chs,
         scs |-> Map(raw, LAMBDA s : [s EXCEPT !.typ = InheritedType(chs, s)]) ]

-----------------------------------------------------------------------------
(* Comparing projects: "no value" and "empty" are the same *)
NormRec(r, lists) == [f \in DOMAIN r |-> IF f \in lists THEN TL(r[f]) ELSE T(r[f])]
ScLists == {"tags", "chars", "locs", "items"}
NormScene(s) == NormRec(s, ScLists)
NormChapter(c) == [f \in DOMAIN c |-> IF f = "scs" THEN c[f] ELSE T(c[f])]
NormElem(w) == NormRec(w, {"tags"})
NormProject(n) ==
    [ prj |-> NormRec(n.prj, {"languages"}),
      crs |-> Map(n.crs, NormElem), lcs |-> Map(n.lcs, NormElem), its |-> Map(n.its, NormElem),
      pns |-> Map(n.pns, LAMBDA p : NormRec(p, {})), chs |-> Map(n.chs, NormChapter),
      scs |-> Map(n.scs, NormScene) ]

\* names of the fields in which two records differ
DiffFields(a, b) == {f \in DOMAIN a \cup DOMAIN b : f \notin DOMAIN a \/ f \notin DOMAIN b \/ (f \in DOMAIN a /\ f \in DOMAIN b /\ a[f] # b[f])}
\* names of differing fields over two sequences of records; "#" if the sequences do not match by ID
DiffSeq(p, a, b) ==
    IF Map(a, LAMBDA r : r.id) # Map(b, LAMBDA r : r.id) THEN {p \o "#order"}
    ELSE UNION {{p \o f : f \in DiffFields(a[i], b[i])} : i \in DOMAIN a}
DiffProject(a, b) ==
    {"prj." \o f : f \in DiffFields(a.prj, b.prj)}
    \cup DiffSeq("cr.", a.crs, b.crs) \cup DiffSeq("lc.", a.lcs, b.lcs) \cup DiffSeq("it.", a.its, b.its)
    \cup DiffSeq("pn.", a.pns, b.pns) \cup DiffSeq("ch.", a.chs, b.chs) \cup DiffSeq("sc.", a.scs, b.scs)

-----------------------------------------------------------------------------
(* Saving: the project as it must read back after project n has been saved  *)
(* over a file with the content tree "root" (or over no file at all).       *)

NoTree == Elem("", NULL, <<>>)
OldKid(root, sect, tag, id) ==
    LET S == {i \in DOMAIN KidsIn(root, sect) : KidsIn(root, sect)[i].g = tag /\ KidText(KidsIn(root, sect)[i], "ID") = id}
    IN IF S = {} THEN Elem(tag, NULL, <<>>) ELSE KidsIn(root, sect)[Min(S)]

Keep(new, old) == IF new = NULL THEN T(old) ELSE T(new)     \* "no value" leaves the file alone
KeepL(new, old) == IF new = NOLST THEN TL(old) ELSE TL(new)

SavedScene(root, n, s) ==
    LET e == OldKid(root, "SCENES", "SCENE", s.id)
        o == ReadScene(e, <<>>, <<>>, <<>>)
        known(refs, es) == TL(SelectSeq(LST(refs), LAMBDA r : \E i \in DOMAIN es : es[i].id = r))
        st == StartMeant(e, s)
        txt == [f \in {"title", "desc", "content", "status", "notes", "f1", "f2", "f3", "f4",
                       "ld", "lh", "lm", "goal", "conf", "outc", "img"} |-> Keep(s[f], o[f])]
    IN [ id |-> s.id ] @@ txt @@
       [ typ |-> TypeOrNormal(s.typ),
         dne |-> IF s.dne = NULL THEN o.dne ELSE s.dne,
         tags |-> KeepL(s.tags, o.tags),
         app |-> FT(s.app), react |-> FT(s.react), sub |-> FT(s.sub),
         date |-> T(st.date), time |-> T(st.time), day |-> T(st.day),
         chars |-> known(s.chars, n.crs), locs |-> known(s.locs, n.lcs), items |-> known(s.items, n.its),
         arcs |-> Keep(s.arcs, o.arcs),
         mode |-> IF s.mode = NULL THEN o.mode ELSE IF s.mode \in {"0", ""} THEN NULL ELSE s.mode ]

SavedChapter(root, n, c) ==
    LET e == OldKid(root, "CHAPTERS", "CHAPTER", c.id)
        title == Keep(c.title, KidText(e, "Title"))
    IN [ id |-> c.id, title |-> title, desc |-> Keep(c.desc, KidText(e, "Desc")),
         lev |-> IF c.lev = NULL THEN (IF HasKid(e, "SectionStart") THEN "1" ELSE "0") ELSE c.lev,
         typ |-> TypeOrNormal(c.typ),
         supT |-> Bool(FT(c.supT) = "T" \/ (title # NULL /\ StartsWith(title, "@"))),
         supB |-> FT(c.supB), trash |-> FT(c.trash),
         scs |-> SelectSeq(c.scs, LAMBDA r : \E i \in DOMAIN n.scs : n.scs[i].id = r) ]

SavedElem(w) == [NormElem(w) EXCEPT !.tags = TL(w.tags)]
SavedCharacter(w) == [NormElem(w) EXCEPT !.major = FT(w.major)]

\* the document language: taken as is if plausible, "none" if not, the system's if missing
LocaleOf(lang, country, syslang, syscountry) ==
    IF T(lang) = NULL THEN [l |-> syslang, c |-> syscountry]
    ELSE IF Len(lang) = 2 /\ country # NULL /\ Len(country) = 2 THEN [l |-> lang, c |-> country]
    ELSE [l |-> "zxx", c |-> "none"]

\* the languages that occur as markup in a text, in order of appearance
RECURSIVE LangsFrom(_, _)
LangsFrom(s, i) ==
    IF i + 6 > Len(s) THEN <<>>
    ELSE IF SubSeq(s, i, i + 5) # "[lang=" THEN LangsFrom(s, i + 1)
    ELSE LET ends == {j \in (i + 6)..Len(s) : Ch(s, j) = "]" /\ \A m \in (i + 6)..j : Ch(s, m) # "\n"}
         IN IF ends = {} THEN LangsFrom(s, i + 6)
            ELSE <<SubSeq(s, i + 6, Min(ends) - 1)>> \o LangsFrom(s, Min(ends) + 1)
LangsOfText(s) == IF s = NULL THEN <<>> ELSE LangsFrom(s, 1)
LangsOfScenes(scs) == Dedup(Concat([i \in DOMAIN scs |-> LangsOfText(scs[i].content)]))
\* the languages a project knows: those collected before, and those of its texts
LangsOf2(n) == LET known == LST(n.prj.languages)
               IN known \o SelectSeq(LangsOfScenes(n.scs), LAMBDA x : ~InSeq(x, known))
\* the system's language, from the name of its locale (like "de_AT.UTF-8")
SystemLocale(name) ==
    LET ends == {i \in 1..Len(name) : Ch(name, i) \in {".", "@"}}
        p == SplitAt(SubSeq(name, 1, IF ends = {} THEN Len(name) ELSE Min(ends) - 1), "_")
    IN IF Len(p) = 2 /\ Len(p[1]) = 2 /\ Len(p[2]) = 2 THEN [lang |-> p[1], country |-> p[2]] ELSE [lang |-> "zxx", country |-> "none"]

SavedPrj(root, p0, langs, sys) ==
    LET p == [p0 EXCEPT !.languages = langs]
        o == IF HasKid(root, "PROJECT") THEN ReadPrj(root)
             ELSE [f \in DOMAIN p |-> IF f = "languages" THEN NOLST ELSE NULL]
        any == LST(p.languages) # <<>> \/ T(p.lang) # NULL \/ T(p.country) # NULL
        loc == LocaleOf(p.lang, p.country, sys.lang, sys.country)
        new == SelectSeq(LST(p.languages), LAMBDA l : ~InSeq(l, LST(o.languages)))
        txt == [f \in {"title", "desc", "author", "bio", "f1", "f2", "f3", "f4", "wcs", "wt"} |-> Keep(p[f], o[f])]
        vars == KidsIn(root, "PROJECTVARS")
    IN txt @@ [ lang |-> IF any THEN loc.l ELSE LastVar(vars, "Language", NULL),
                country |-> IF any THEN loc.c ELSE LastVar(vars, "Country", NULL),
                languages |-> TL(LST(o.languages) \o new) ]

AfterSave(root, n, sys) ==
    LET chs == Map(n.chs, LAMBDA c : SavedChapter(root, n, c))
        scs == Map(n.scs, LAMBDA s : SavedScene(root, n, s))
    IN [ prj |-> SavedPrj(root, n.prj, LangsOf2(n), sys),
         crs |-> Map(n.crs, SavedCharacter), lcs |-> Map(n.lcs, SavedElem), its |-> Map(n.its, SavedElem),
         pns |-> Map(n.pns, LAMBDA p : NormRec(p, {})),
         chs |-> chs,
         scs |-> Map(scs, LAMBDA s : [s EXCEPT !.typ = InheritedType(chs, s)]) ]

-----------------------------------------------------------------------------
(* What saving must not touch *)

ManagedRoot == {"PROJECT", "LOCATIONS", "ITEMS", "CHARACTERS", "PROJECTNOTES", "PROJECTVARS", "SCENES", "CHAPTERS"}
ManagedPrj == {"Ver", "Title", "Desc", "AuthorName", "Bio", "FieldTitle1", "FieldTitle2", "FieldTitle3",
               "FieldTitle4", "WordCountStart", "WordTarget", "Fields", "SavedWith", "SavedOn"}
ManagedPrjFields == {"Field_LanguageCode", "Field_CountryCode"}
ManagedScene == {"Title", "Desc", "SceneContent", "WordCount", "LetterCount", "RTFFile", "BelongsToChID", "Unused",
                 "Fields", "ExportCondSpecific", "ExportWhenRTF", "Status", "Notes", "Tags", "Field1", "Field2",
                 "Field3", "Field4", "AppendToPrev", "SpecificDateTime", "SpecificDateMode", "Day", "Hour",
                 "Minute", "LastsDays", "LastsHours", "LastsMinutes", "ReactionScene", "SubPlot", "Goal",
                 "Conflict", "Outcome", "ImageFile", "Characters", "Locations", "Items"}
ManagedSceneFields == {"Field_SceneType", "Field_SceneArcs", "Field_SceneMode"}
ManagedChapter == {"Title", "Desc", "Unused", "SortOrder", "Fields", "SectionStart", "Type", "ChapterType", "Scenes"}
ManagedChapterFields == {"Field_SuppressChapterTitle", "Field_SuppressChapterBreak", "Field_IsTrash"}

Foreign(e, managed) == Bag(SelectSeq(e.k, LAMBDA c : c.g \notin managed))
ForeignFields(e, managed) == IF HasKid(e, "Fields") THEN Foreign(Kid(e, "Fields"), managed) ELSE Bag(<<>>)

SameForeign(a, b, managed, managedFields) ==
    /\ Foreign(a, managed) = Foreign(b, managed)
    /\ ForeignFields(a, managedFields) = ForeignFields(b, managedFields)

\* clauses violated by the change of the file content from "a" to "b" while project n is saved
FrameFaults(a, b, n) ==
    LET keptSc == {i \in DOMAIN n.scs : \E j \in DOMAIN KidsIn(a, "SCENES") : KidText(KidsIn(a, "SCENES")[j], "ID") = n.scs[i].id}
        keptCh == {i \in DOMAIN n.chs : \E j \in DOMAIN KidsIn(a, "CHAPTERS") : KidText(KidsIn(a, "CHAPTERS")[j], "ID") = n.chs[i].id}
        va == KidsIn(a, "PROJECTVARS") vb == KidsIn(b, "PROJECTVARS")
        other(v) == DropKids(v, {"Desc"})
        special(v) == VarTitle(v) \in {"Language", "Country"}
    IN (IF Foreign(a, ManagedRoot) # Foreign(b, ManagedRoot) THEN {"root"} ELSE {})
       \cup (IF ~SameForeign(Kid(a, "PROJECT"), Kid(b, "PROJECT"), ManagedPrj, ManagedPrjFields) THEN {"project"} ELSE {})
       \cup (IF \A i \in keptSc : SameForeign(OldKid(a, "SCENES", "SCENE", n.scs[i].id), OldKid(b, "SCENES", "SCENE", n.scs[i].id),
                                               ManagedScene, ManagedSceneFields) THEN {} ELSE {"scene"})
       \cup (IF \A i \in keptCh : SameForeign(OldKid(a, "CHAPTERS", "CHAPTER", n.chs[i].id), OldKid(b, "CHAPTERS", "CHAPTER", n.chs[i].id),
                                               ManagedChapter, ManagedChapterFields) THEN {} ELSE {"chapter"})
       \cup (IF /\ Len(vb) >= Len(va)
                /\ \A i \in DOMAIN va : IF special(va[i]) THEN other(va[i]) = other(vb[i]) ELSE va[i] = vb[i]
             THEN {} ELSE {"projectvars"})

\* how types and flags must be laid down in the file
EncodingFaults(b, n) ==
    LET scOK(s) == LET e == OldKid(b, "SCENES", "SCENE", s.id) c == ScTypeCode(TypeOrNormal(s.typ))
                   IN HasKid(e, "Unused") = c.unused /\ SubText(e, "Fields", "Field_SceneType") = c.field
        chOK(s) == LET e == OldKid(b, "CHAPTERS", "CHAPTER", s.id) c == ChTypeCode(TypeOrNormal(s.typ))
                   IN HasKid(e, "Unused") = c.unused /\ KidText(e, "Type") = c.type /\ KidText(e, "ChapterType") = c.chtype
        dneOK(s) == LET e == OldKid(b, "SCENES", "SCENE", s.id) IN s.dne # NULL => ReadDne(e) = s.dne
    IN (IF \A i \in DOMAIN n.scs : scOK(n.scs[i]) THEN {} ELSE {"scene"})
       \cup (IF \A i \in DOMAIN n.chs : chOK(n.chs[i]) THEN {} ELSE {"chapter"})
       \cup (IF \A i \in DOMAIN n.scs : dneOK(n.scs[i]) THEN {} ELSE {"export"})

\* The start of a scene is laid down in one way: with a date, or with a day, or not at all; and with seconds
\* where there was a complete time before.
Mixed(x) == HasKid(x, "SpecificDateTime") /\ \E t \in {"Day", "Hour", "Minute"} : HasKid(x, t)
StartLaidDown(old, e, s) ==
    LET k == StartKind(s)
    IN /\ (~Mixed(old) => ~Mixed(e))
       /\ (k = "clear" => \A t \in StartTags : ~HasKid(e, t))
       /\ (k \in {"specific", "unspecific"} => (HasKid(e, "SpecificDateTime") <=> k = "specific"))
       /\ (k = "specific" => IF HasKid(old, "SpecificDateTime") THEN Len(KidText(e, "SpecificDateTime")) = 19
                             ELSE KidText(e, "SpecificDateMode") = "-1")
       /\ (k = "unspecific" => ~HasKid(e, "SpecificDateMode"))
StartFaults(old, b, n) ==
    IF \A i \in DOMAIN n.scs :
          StartLaidDown(OldKid(old, "SCENES", "SCENE", n.scs[i].id),
                        OldKid(b, "SCENES", "SCENE", n.scs[i].id), n.scs[i])
    THEN {} ELSE {"start"}

\* counts are derived data: the file must not keep stale ones
StaleCounts(b) == \E i \in DOMAIN KidsIn(b, "SCENES") :
                     HasKid(KidsIn(b, "SCENES")[i], "WordCount") \/ HasKid(KidsIn(b, "SCENES")[i], "LetterCount")

-----------------------------------------------------------------------------
(* Identity and references within a project *)
IntegrityFaults(n) ==
    LET ids(es) == {es[i].id : i \in DOMAIN es}
        uniq(es) == Cardinality(ids(es)) = Len(es)
        refs(f, es) == \A i \in DOMAIN n.scs : \A r \in Range2(LST(n.scs[i][f])) : r \in ids(es)
    IN (IF uniq(n.chs) /\ uniq(n.scs) /\ uniq(n.crs) /\ uniq(n.lcs) /\ uniq(n.its) /\ uniq(n.pns) THEN {} ELSE {"unique"})
       \cup (IF \A i \in DOMAIN n.chs : \A r \in Range2(n.chs[i].scs) : r \in ids(n.scs) THEN {} ELSE {"chapter-scene"})
       \cup (IF refs("chars", n.crs) THEN {} ELSE {"scene-character"})
       \cup (IF refs("locs", n.lcs) THEN {} ELSE {"scene-location"})
       \cup (IF refs("items", n.its) THEN {} ELSE {"scene-item"})
VarIdsUnique(b) == NoDup(Map(KidsIn(b, "PROJECTVARS"), LAMBDA v : KidText(v, "ID")))
\* what the file says its chapters consist of is in the file
NoDangling(b) ==
    LET there == {KidText(KidsIn(b, "SCENES")[i], "ID") : i \in DOMAIN KidsIn(b, "SCENES")}
        chs == KidsIn(b, "CHAPTERS")
    IN \A i \in DOMAIN chs : \A j \in DOMAIN KidsIn(chs[i], "Scenes") : KidsIn(chs[i], "Scenes")[j].x \in there

-----------------------------------------------------------------------------
(* The form of a saved file, apart from what it says.  yWriter keeps texts   *)
(* in CDATA sections, and does not read a self-closed list of chapters.      *)
TextTags == {"Title", "AuthorName", "Bio", "Desc", "FieldTitle1", "FieldTitle2", "FieldTitle3", "FieldTitle4", "Tags", "AKA",
             "ImageFile", "FullName", "Goals", "Notes", "SceneContent", "Outcome", "Goal", "Field_ArcDefinition", "Field_SceneArcs"}
FormFaults(f) ==
    (IF f.head = "<?xml version=\"1.0\" encoding=\"utf-8\"?>" THEN {} ELSE {"header"})
    \cup (IF Range2(f.outside) \cap TextTags = {} THEN {} ELSE {"cdata"})
    \cup (IF "CHAPTERS" \notin Range2(f.closed) THEN {} ELSE {"chapters"})
=============================================================================
