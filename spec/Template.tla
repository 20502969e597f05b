------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* What a template-based export consists of: a text, computed from the      *)
(* project and the templates an application has defined.                    *)
(*   tp    the templates: the name of every template, and what it consists  *)
(*         of: literal text, and placeholders.  An undefined one is empty.  *)
(*   keep  the elements the application's filters let through, as lists of  *)
(*         IDs;  f  the project file's name and folder, URL-coded.          *)
(***************************************************************************)
EXTENDS Doc, Sheet

\* a template part, spelled r: t "lit" is plain text, t "ph" is the placeholder named x, t "esc" stands for x
Sub(part, m) == IF part.t = "ph" /\ part.x \in DOMAIN m THEN m[part.x] ELSE IF part.t = "esc" THEN part.x ELSE part.r
Apply(parts, m) == Join0(Map(parts, LAMBDA p : Sub(p, m)))
Defined(parts) == parts # <<>>

Names2(l) == Join(Map(l, Txt0), ", ")
Locale(n) == [Language |-> Txt0(n.prj.lang), Country |-> Txt0(n.prj.country)]
Fields(n) == [FieldTitle1 |-> Txt0(n.prj.f1), FieldTitle2 |-> Txt0(n.prj.f2), FieldTitle3 |-> Txt0(n.prj.f3), FieldTitle4 |-> Txt0(n.prj.f4)]
Project(f) == [ProjectName |-> f.name, ProjectPath |-> f.path]

HeaderMap(n) == [Title |-> Txt0(n.prj.title), Desc |-> Txt0(n.prj.desc), AuthorName |-> Txt0(n.prj.author), AuthorBio |-> Txt0(n.prj.bio)]
                @@ Fields(n) @@ Locale(n)
Number(k) == IF k = 0 THEN "" ELSE ToString(k)
ChapterMap(n, f, c, k) == [ID |-> c.id, ChapterNumber |-> Number(k), Title |-> Txt0(c.title), Desc |-> Txt0(c.desc)] @@ Project(f) @@ Locale(n)

\* the time of day without the seconds
ShortTime(x) == IF x = NULL THEN ""
                ELSE LET S == {i \in 1..Len(x) : Ch(x, i) = ":"} IN IF S = {} THEN x ELSE SubSeq(x, 1, Max(S) - 1)
Span(x) == IF x = NULL \/ x = "0" THEN "" ELSE x
SceneMap(n, f, s, k, words, letters) ==
    LET dated == s.date # NULL /\ s.date # "0001-01-01"
        chars == Map(LST(s.chars), LAMBDA id : ById(n.crs, id).title)
        d == Span(s.ld) h == Span(s.lh) m == Span(s.lm)
    IN [ID |-> s.id, SceneNumber |-> Number(k), Title |-> Txt0(s.title), Desc |-> Txt0(s.desc),
        WordCount |-> ToString(WordsOf(s.content)), WordsTotal |-> ToString(words),
        LetterCount |-> ToString(LettersOf(s.content)), LettersTotal |-> ToString(letters),
        Status |-> StatusName(s.status), SceneContent |-> Txt0(s.content),
        Field1 |-> Txt0(s.f1), Field2 |-> Txt0(s.f2), Field3 |-> Txt0(s.f3), Field4 |-> Txt0(s.f4),
        Date |-> IF dated THEN s.date ELSE "", Time |-> ShortTime(s.time), Day |-> IF dated THEN "" ELSE Txt0(s.day),
        ScDate |-> IF dated THEN s.date ELSE IF s.day # NULL THEN "Day " \o s.day ELSE "",
        LastsDays |-> d, LastsHours |-> h, LastsMinutes |-> m,
        Duration |-> (IF d = "" THEN "" ELSE d \o "d ") \o (IF h = "" THEN "" ELSE h \o "h ") \o (IF m = "" THEN "" ELSE m \o "min"),
        ReactionScene |-> IF s.react = "T" THEN "R" ELSE "A",
        Goal |-> Txt0(s.goal), Conflict |-> Txt0(s.conf), Outcome |-> Txt0(s.outc), Tags |-> List(s.tags), Image |-> Txt0(s.img),
        Characters |-> Names2(chars), Viewpoint |-> IF chars = <<>> THEN "" ELSE Txt0(chars[1]),
        Locations |-> Names2(NamesOf(s.locs, n.lcs)), Items |-> Names2(NamesOf(s.items, n.its)), Notes |-> Txt0(s.notes)]
       @@ Fields(n) @@ Project(f) @@ Locale(n)
PlaceMap(f, e) == [ID |-> e.id, Title |-> Txt0(e.title), Desc |-> Txt0(e.desc), Tags |-> List(e.tags), Image |-> Txt0(e.img), AKA |-> Txt0(e.aka)]
                  @@ Project(f)
CharacterMap(f, e) == [Notes |-> Txt0(e.notes), Bio |-> Txt0(e.bio), Goals |-> Txt0(e.goals), FullName |-> Txt0(e.full),
                       Status |-> IF e.major = "T" THEN "Major" ELSE "Minor"] @@ PlaceMap(f, e)
NoteMap(f, e) == [ID |-> e.id, Title |-> Txt0(e.title), Desc |-> Txt0(e.desc)] @@ Project(f)

-----------------------------------------------------------------------------
(* Which template an element calls for *)
ChapterHeadOf(tp, c, cls) ==
    CASE cls = "todo" -> IF c.lev = "1" THEN tp.todoPart ELSE tp.todoChapter
      [] cls = "notes" -> IF c.lev = "1" THEN tp.notesPart ELSE tp.notesChapter
      [] cls = "unused" -> tp.unusedChapter
      [] cls = "hidden" -> tp.notExportedChapter
      [] cls = "part" -> tp.part
      [] OTHER -> tp.chapter
ChapterEndOf(tp, cls) ==
    CASE cls = "todo" -> tp.todoChapterEnd [] cls = "notes" -> tp.notesChapterEnd [] cls = "unused" -> tp.unusedChapterEnd
      [] cls = "hidden" -> tp.notExportedChapterEnd [] OTHER -> tp.chapterEnd
\* scenes of these classes are left out if the application has no template for them; raw code for other formats always is
Shown(tp, cls) == CASE cls = "todo" -> Defined(tp.todoScene) [] cls = "notes" -> Defined(tp.notesScene)
                    [] cls = "unused" -> Defined(tp.unusedScene) [] cls = "hidden" -> Defined(tp.notExportedScene)
                    [] cls = "code" -> FALSE [] OTHER -> TRUE
SceneOf(tp, s, cls, first) ==
    IF first /\ Defined(tp.firstScene) THEN tp.firstScene
    ELSE CASE cls = "todo" -> tp.todoScene [] cls = "notes" -> tp.notesScene [] cls = "unused" -> tp.unusedScene
           [] cls = "hidden" -> tp.notExportedScene
           [] OTHER -> IF ~first /\ s.app = "T" /\ Defined(tp.appendedScene) THEN tp.appendedScene ELSE tp.scene
DividerBefore(tp, s, first) == IF first \/ s.app = "T" THEN "" ELSE Join0(Map(tp.divider, LAMBDA p : p.r))

\* one scene; st: what has been written, and the running numbers
SceneStep(n, f, tp, c, cls, st, s) ==
    LET sc == SceneClass(c, s, cls)
        k == IF sc = "normal" THEN st.k + 1 ELSE st.k
        w == IF sc = "normal" THEN st.w + WordsOf(s.content) ELSE st.w
        l == IF sc = "normal" THEN st.l + LettersOf(s.content) ELSE st.l
    IN IF ~Shown(tp, sc) THEN st
       ELSE [st EXCEPT !.k = k, !.w = w, !.l = l, !.first = FALSE,
                       !.out = @ \o <<DividerBefore(tp, s, st.first),
                                      Apply(SceneOf(tp, s, sc, st.first), SceneMap(n, f, s, IF sc = "normal" THEN k ELSE 0, w, l))>>]
ChapterStep(n, f, tp, keep, st, c) ==
    LET cls == ChapterClass(n, c, Defined(tp.part))
        k == IF cls = "chapter" THEN st.ck + 1 ELSE st.ck
        m == ChapterMap(n, f, c, IF cls = "chapter" THEN k ELSE 0)
        scs == SelectSeq(ScenesOf(n, c), LAMBDA s : InSeq(s.id, keep.scs))
        mid == FoldLeft(LAMBDA x, s : SceneStep(n, f, tp, c, cls, x, s),
                        [st EXCEPT !.ck = k, !.first = TRUE, !.out = Append(@, Apply(ChapterHeadOf(tp, c, cls), m))], scs)
    IN [mid EXCEPT !.out = Append(@, Apply(ChapterEndOf(tp, cls), m))]
BodyOf(n, f, tp, keep) ==
    FoldLeft(LAMBDA st, c : ChapterStep(n, f, tp, keep, st, c), [k |-> 0, w |-> 0, l |-> 0, ck |-> 0, first |-> TRUE, out |-> <<>>],
             SelectSeq(n.chs, LAMBDA c : InSeq(c.id, keep.chs))).out
Raw(parts) == Join0(Map(parts, LAMBDA p : p.r))
WorldOf(l, ids, head, parts, M(_)) ==
    <<Raw(head)>> \o Map(SelectSeq(l, LAMBDA e : InSeq(e.id, ids)), LAMBDA e : Apply(parts, M(e)))

\* the parts of the exported text, in order
PartsOf(n, f, tp, keep) ==
    [header |-> Apply(tp.header, HeaderMap(n)),
     chapters |-> Join0(BodyOf(n, f, tp, keep)),
     characters |-> Join0(WorldOf(n.crs, keep.crs, tp.characterSection, tp.character, LAMBDA e : CharacterMap(f, e))),
     locations |-> Join0(WorldOf(n.lcs, keep.lcs, tp.locationSection, tp.location, LAMBDA e : PlaceMap(f, e))),
     items |-> Join0(WorldOf(n.its, keep.its, tp.itemSection, tp.item, LAMBDA e : PlaceMap(f, e))),
     notes |-> Join0(Map(n.pns, LAMBDA e : Apply(tp.projectNote, NoteMap(f, e)))),
     footer |-> Raw(tp.footer)]
TextOf(n, f, tp, keep) ==
    LET p == PartsOf(n, f, tp, keep)
    IN Join0(<<p.header, p.chapters, p.characters, p.locations, p.items, p.notes, p.footer>>)
\* the first part of the text that is not as it should be
FirstFault(act, p) ==
    LET order == <<"header", "chapters", "characters", "locations", "items", "notes", "footer">>
        Upto(k) == Join0([i \in 1..k |-> p[order[i]]])
        S == {k \in 1..7 : ~StartsWith(act, Upto(k))}
    IN IF S = {} THEN "surplus" ELSE order[Min(S)]
=============================================================================
