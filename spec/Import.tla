------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* What a document means when it is written back to a project, or when a    *)
(* new project is made from it.                                             *)
(*   n       the project before      d = [blocks, rows, meta] the document  *)
(* Result: the project after, the lines of the imported scenes, whether     *)
(* anything has been split, and whether the document can be imported.       *)
(***************************************************************************)
EXTENDS Split, Sheet

BlankElem(id) == [id |-> id, title |-> NULL, desc |-> NULL, img |-> NULL, aka |-> NULL, tags |-> NOLST, link |-> NULL]
BlankCharacter(id) ==
    BlankElem(id) @@ [birth |-> NULL, death |-> NULL, notes |-> NULL, bio |-> NULL, goals |-> NULL, full |-> NULL, major |-> "F"]
EmptyProject ==
    [prj |-> [title |-> NULL, desc |-> NULL, author |-> NULL, bio |-> NULL, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL,
              wcs |-> NULL, wt |-> NULL, lang |-> NULL, country |-> NULL, languages |-> NOLST],
     crs |-> <<>>, lcs |-> <<>>, its |-> <<>>, pns |-> <<>>, chs |-> <<>>, scs |-> <<>>]

SECTIONED == {"_manuscript", "_notes", "_todo"}
IMPORTS == SECTIONED \cup {"_proof", "_scenes", "_chapters", "_parts", "_characters", "_items", "_locations"} \cup SHEETS
TypeFor(kind) == CASE kind = "_notes" -> "1" [] kind = "_todo" -> "2" [] OTHER -> "0"

\* the first number in a name
NumIn(s) ==
    LET S == {i \in 1..Len(s) : Ch(s, i) \in Digits}
        a == Min(S)
        E == {i \in a..Len(s) : Ch(s, i) \notin Digits}
    IN IF S = {} THEN "" ELSE SubSeq(s, a, IF E = {} THEN Len(s) ELSE Min(E) - 1)

-----------------------------------------------------------------------------
(* Paragraphs as lines of a scene *)
LevelOf(b) == IF b.k \in {"p", "li"} /\ StartsWith(b.s, "Heading_20_") THEN "h" \o Ch(b.s, Len(b.s)) ELSE b.k
CommentOf(r) ==
    IF r.t = "n" THEN [t |-> "c", x |-> (IF StartsWith(r.x, "footnote") THEN "@fn " ELSE "@en ") \o Strip(PlainComment(r)), f |-> <<>>]
    ELSE [t |-> "c", x |-> Strip(PlainComment(r)), f |-> <<>>]
RunsOf(b) == Map(b.r, LAMBDA r : IF r.t = "t" THEN [t |-> "t", x |-> r.x, f |-> r.f] ELSE CommentOf(r))
PlainT(x) == [t |-> "t", x |-> x, f |-> <<>>]
Prefixed(x, runs) == IF runs # <<>> /\ runs[1].t = "t" /\ runs[1].f = <<>>
                     THEN [runs EXCEPT ![1].x = x \o runs[1].x] ELSE <<PlainT(x)>> \o runs
\* neighbouring runs of the same format are one
Merged(runs) == FoldLeft(LAMBDA acc, r : IF r.t = "t" /\ r.x = "" THEN acc
                                         ELSE IF acc # <<>> /\ r.t = "t" /\ acc[Len(acc)].t = "t" /\ acc[Len(acc)].f = r.f
                                         THEN [acc EXCEPT ![Len(acc)].x = acc[Len(acc)].x \o r.x] ELSE Append(acc, r), <<>>, runs)
\* a line that begins with a quotation mark is a quotation
Quoted(runs) == IF runs # <<>> /\ runs[1].t = "t" /\ StartsWith(runs[1].x, "> ")
                THEN [q |-> TRUE, r |-> Merged(<<[runs[1] EXCEPT !.x = SubSeq(runs[1].x, 3, Len(runs[1].x))]>> \o Tail(runs))]
                ELSE [q |-> FALSE, r |-> runs]
\* line breaks within a paragraph make lines
RECURSIVE BreakRuns(_, _, _)
BreakRuns(runs, cur, acc) ==
    IF runs = <<>> THEN Append(acc, cur)
    ELSE LET r == runs[1]
             p == IF r.t = "t" THEN FindFrom(r.x, "\n", 1) ELSE 0
         IN IF p = 0 THEN BreakRuns(Tail(runs), Append(cur, r), acc)
            ELSE BreakRuns(<<[r EXCEPT !.x = SubSeq(r.x, p + 1, Len(r.x))]>> \o Tail(runs), <<>>, Append(acc, Append(cur, [r EXCEPT !.x = SubSeq(r.x, 1, p - 1)])))
LinesOf(b) ==
    LET lev == LevelOf(b)
        parts == BreakRuns(RunsOf(b), <<>>, <<>>)
        One(i) == LET rs == Merged(parts[i])
                  IN IF b.s = "Quotations" THEN [q |-> TRUE, r |-> rs]
                     ELSE Quoted(IF i > 1 THEN rs ELSE CASE lev = "h1" -> Prefixed("# ", rs) [] lev = "h2" -> Prefixed("## ", rs) [] lev = "li" -> Prefixed("- ", rs) [] OTHER -> rs)
    IN [i \in DOMAIN parts |-> One(i)]
\* paragraphs as plain text
PlainOf(b) == Join0(Map(b.r, LAMBDA r : IF r.t = "t" THEN r.x ELSE ""))
PlainText(ls) == RStrip(Join(ls, "\n"))
LangsOfLines(ls) == Concat([i \in DOMAIN ls |-> Concat([j \in DOMAIN ls[i].r |-> SelectSeq(ls[i].r[j].f, LAMBDA f : f \notin {"b", "i"})])])
LangsOfTxt(txt, ids) == Dedup(Concat(Map(ids, LAMBDA id : Map(LangsOfLines(txt[id]), LAMBDA f : SubSeq(f, 6, Len(f))))))

-----------------------------------------------------------------------------
(* Reading a document block by block *)
NoSec == [what |-> "", id |-> ""]
SecOf(s) ==
    CASE StartsWith(s, "ScID") -> [what |-> "sc", id |-> NumIn(s)] [] StartsWith(s, "ChID") -> [what |-> "ch", id |-> NumIn(s)]
      [] StartsWith(s, "CrID_desc") -> [what |-> "desc", id |-> NumIn(s)] [] StartsWith(s, "CrID_bio") -> [what |-> "bio", id |-> NumIn(s)]
      [] StartsWith(s, "CrID_goals") -> [what |-> "goals", id |-> NumIn(s)] [] StartsWith(s, "CrID_notes") -> [what |-> "notes", id |-> NumIn(s)]
      [] StartsWith(s, "LcID") -> [what |-> "lc", id |-> NumIn(s)] [] StartsWith(s, "ItID") -> [what |-> "it", id |-> NumIn(s)]
      [] OTHER -> NoSec
Begin(n) == [n |-> n, txt |-> <<>>, ids |-> <<>>, sk |-> <<>>, ch |-> "", sc |-> "", at |-> NoSec, buf |-> <<>>, ok |-> TRUE, nch |-> 0, nsc |-> 0]
Top(st) == st.sk[Len(st.sk)]
Pop(st) == [st EXCEPT !.sk = SubSeq(st.sk, 1, Len(st.sk) - 1)]
SetScene(st, id, F(_)) == [st EXCEPT !.n.scs = Upd(st.n.scs, id, F)]
SetChapter(st, id, F(_)) == [st EXCEPT !.n.chs = Upd(st.n.chs, id, F)]

OpenChapter(st, id, kind) ==
    LET st1 == IF Known(st.n.chs, id) THEN st ELSE [st EXCEPT !.n.chs = Append(st.n.chs, BlankChapter(id))]
    IN [SetChapter(st1, id, LAMBDA c : [c EXCEPT !.typ = TypeFor(kind)]) EXCEPT !.ch = id, !.buf = <<>>]
OpenScene(st, id, kind) ==
    IF ~Known(st.n.scs, id) /\ st.ch = "" THEN [st EXCEPT !.ok = FALSE]
    ELSE LET st1 == IF Known(st.n.scs, id) THEN st
                    ELSE SetChapter([st EXCEPT !.n.scs = Append(st.n.scs, BlankScene(id))], st.ch, LAMBDA c : [c EXCEPT !.scs = Append(c.scs, id)])
         IN [SetScene(st1, id, LAMBDA s : [s EXCEPT !.typ = TypeFor(kind)]) EXCEPT !.sc = id, !.buf = <<>>]
\* the heading of a chapter without a title becomes its title
TitleChapter(st, b) ==
    IF LevelOf(b) \in {"h1", "h2"} THEN SetChapter(st, st.ch, LAMBDA c : IF T(c.title) = NULL THEN [c EXCEPT !.title = Strip(PlainOf(b))] ELSE c)
    ELSE st

StoreText(st, id, ls) == [st EXCEPT !.txt = (id :> TrimLines(ls)) @@ st.txt, !.ids = Append(st.ids, id), !.sc = "", !.buf = <<>>]

\* documents with sections for chapters and scenes
SectionStep(st, b, kind) ==
    IF ~st.ok THEN st
    ELSE CASE b.k = "sec" ->
            LET s == SecOf(b.s)
                st1 == [st EXCEPT !.sk = Append(st.sk, IF s.what \in {"ch", "sc"} THEN s ELSE NoSec)]
            IN IF s.what = "ch" THEN OpenChapter(st1, s.id, kind) ELSE IF s.what = "sc" THEN OpenScene(st1, s.id, kind) ELSE st1
      [] b.k = "end" ->
            LET s == Top(st)
                st1 == Pop(st)
            IN IF s.what = "sc" THEN (IF kind = "_scenes" THEN [SetScene(st1, s.id, LAMBDA x : [x EXCEPT !.desc = PlainText(st.buf)]) EXCEPT !.sc = "", !.buf = <<>>]
                                      ELSE StoreText(st1, s.id, st.buf))
               ELSE IF s.what = "ch" THEN [st1 EXCEPT !.ch = ""] ELSE st1
      [] OTHER ->
            IF st.sc # "" THEN (IF kind = "_scenes" THEN [st EXCEPT !.buf = Append(st.buf, PlainOf(b))]
                                ELSE IF LevelOf(b) = "h3" THEN st ELSE [st EXCEPT !.buf = st.buf \o LinesOf(b)])
            ELSE IF st.ch # "" THEN TitleChapter(st, b) ELSE st

\* documents with sections for chapter descriptions
ChapterDocStep(st, b) ==
    CASE b.k = "sec" ->
            LET s == SecOf(b.s)
                st1 == [st EXCEPT !.sk = Append(st.sk, IF s.what = "ch" THEN s ELSE NoSec)]
            IN IF s.what = "ch" THEN OpenChapter(st1, s.id, "") ELSE st1
      [] b.k = "end" ->
            LET s == Top(st)
            IN IF s.what = "ch" THEN [SetChapter(Pop(st), s.id, LAMBDA c : [c EXCEPT !.desc = PlainText(st.buf)]) EXCEPT !.ch = "", !.buf = <<>>] ELSE Pop(st)
      [] OTHER ->
            IF st.ch = "" THEN st
            ELSE IF LevelOf(b) \in {"h1", "h2"} THEN [TitleChapter(st, b) EXCEPT !.buf = <<>>]
            ELSE [st EXCEPT !.buf = Append(st.buf, PlainOf(b))]

\* documents with sections for world elements
ElementWhat(kind) == CASE kind = "_characters" -> {"desc", "bio", "goals", "notes"} [] kind = "_locations" -> {"lc"} [] kind = "_items" -> {"it"}
SetField(x, what, v) == CASE what = "bio" -> [x EXCEPT !.bio = v] [] what = "goals" -> [x EXCEPT !.goals = v]
                         [] what = "notes" -> [x EXCEPT !.notes = v] [] OTHER -> [x EXCEPT !.desc = v]
WithElement(l, id, Blank(_)) == IF Known(l, id) THEN l ELSE Append(l, Blank(id))
StoreElement(n, kind, s, v) ==
    LET Set(x) == SetField(x, s.what, v)
    IN CASE kind = "_characters" -> [n EXCEPT !.crs = Upd(WithElement(n.crs, s.id, BlankCharacter), s.id, Set)]
         [] kind = "_locations" -> [n EXCEPT !.lcs = Upd(WithElement(n.lcs, s.id, BlankElem), s.id, Set)]
         [] kind = "_items" -> [n EXCEPT !.its = Upd(WithElement(n.its, s.id, BlankElem), s.id, Set)]
ElementStep(st, b, kind) ==
    CASE b.k = "sec" ->
            LET s == SecOf(b.s)
                mine == s.what \in ElementWhat(kind)
            IN [st EXCEPT !.sk = Append(st.sk, IF mine THEN s ELSE NoSec), !.at = IF mine THEN s ELSE st.at, !.buf = IF mine THEN <<>> ELSE st.buf]
      [] b.k = "end" ->
            LET s == Top(st)
            IN IF s = NoSec THEN Pop(st) ELSE [Pop(st) EXCEPT !.n = StoreElement(st.n, kind, s, PlainText(st.buf)), !.at = NoSec, !.buf = <<>>]
      [] OTHER -> IF st.at = NoSec THEN st ELSE [st EXCEPT !.buf = Append(st.buf, PlainOf(b))]

\* documents with visible scene marks
ProofStep(st, b) ==
    IF b.k \in {"sec", "end"} THEN st
    ELSE LET x == PlainOf(b)
         IN IF HasSub(x, "[ScID") THEN [st EXCEPT !.sc = NumIn(x), !.buf = <<>>]
            ELSE IF HasSub(x, "[/ScID") THEN (IF Known(st.n.scs, st.sc) THEN StoreText(st, st.sc, st.buf) ELSE [st EXCEPT !.sc = "", !.buf = <<>>])
            ELSE IF st.sc # "" THEN [st EXCEPT !.buf = st.buf \o LinesOf(b)] ELSE st

-----------------------------------------------------------------------------
(* New projects *)
WordsOfLines(ls) == Words(Join(Map(ls, LAMBDA l : (IF l.q THEN "> " ELSE "") \o PlainRuns(l.r)), "\n"))
CloseScene(st) ==
    IF st.sc = "" THEN st
    ELSE IF st.buf = <<>> THEN [st EXCEPT !.sc = ""]
    ELSE StoreText(SetScene(st, st.sc, LAMBDA s : [s EXCEPT !.status = IF WordsOfLines(TrimLines(st.buf)) < 10 THEN "1" ELSE "2"]), st.sc, st.buf)
AddChapter(st, b) ==
    LET id == ToString(st.nch + 1)
    IN [st EXCEPT !.nch = st.nch + 1, !.ch = id, !.sc = "", !.buf = <<>>,
                  !.n.chs = Append(st.n.chs, [BlankChapter(id) EXCEPT !.title = PlainOf(b), !.typ = "0", !.lev = IF LevelOf(b) = "h1" THEN "1" ELSE "0"])]
AddNewScene(st, title, content) ==
    LET id == ToString(st.nsc + 1)
    IN SetChapter([st EXCEPT !.nsc = st.nsc + 1, !.sc = id, !.buf = <<>>,
                             !.n.scs = Append(st.n.scs, [BlankScene(id) EXCEPT !.title = title, !.typ = "0", !.status = "1", !.content = content])],
                  st.ch, LAMBDA c : [c EXCEPT !.scs = Append(c.scs, id)])
IsDivider(b) == Strip(PlainOf(b)) = "* * *"
RECURSIVE LeadingComments(_)
LeadingComments(runs) == IF runs # <<>> /\ runs[1].t = "c" THEN 1 + LeadingComments(Tail(runs)) ELSE 0
WorkStep(st, b) ==
    LET lev == LevelOf(b)
    IN CASE b.k \in {"sec", "end"} -> st
         [] lev \in {"h1", "h2"} -> AddChapter(CloseScene(st), b)
         [] lev = "h4" -> IF IsDivider(b) THEN CloseScene(st) ELSE st
         [] OTHER ->
              IF st.ch = "" THEN st
              ELSE LET st1 == IF st.sc = "" THEN AddNewScene(st, "Scene " \o ToString(st.nsc + 1), NULL) ELSE st
                   IN IF IsDivider(b) THEN CloseScene(st1)
                      ELSE LET lcs == RunsOf(b)
                               k == IF st1.buf = <<>> THEN LeadingComments(lcs) ELSE 0
                               st2 == IF k = 0 THEN st1 ELSE SetScene(st1, st1.sc, LAMBDA s : [s EXCEPT !.title = lcs[k].x])
                           IN [st2 EXCEPT !.buf = st2.buf \o LinesOf([b EXCEPT !.r = SubSeq(b.r, k + 1, Len(b.r))])]
\* descriptions of an outline: empty paragraphs do not count
AddDesc(d, x) == IF Strip(x) = "" THEN d ELSE IF d = NULL THEN Strip(x) ELSE d \o "\n" \o RStrip(x)
OutlineStep(st, b) ==
    LET lev == LevelOf(b)
    IN IF ~st.ok THEN st
       ELSE CASE b.k \in {"sec", "end"} -> st
         [] lev \in {"h1", "h2"} -> AddChapter([st EXCEPT !.sc = ""], b)
         [] lev = "h3" -> IF st.ch = "" THEN [st EXCEPT !.ok = FALSE] ELSE AddNewScene(st, Strip(PlainOf(b)), "")
         [] OTHER -> IF st.sc # "" THEN SetScene(st, st.sc, LAMBDA s : [s EXCEPT !.desc = AddDesc(s.desc, PlainOf(b))])
                     ELSE IF st.ch # "" THEN SetChapter(st, st.ch, LAMBDA c : [c EXCEPT !.desc = AddDesc(c.desc, PlainOf(b))])
                     ELSE st

-----------------------------------------------------------------------------
(* Spreadsheets *)
CellAt(r, j) == IF j \in DOMAIN r THEN r[j].x ELSE ""
\* a column of text: an empty cell clears a text that is there
Col(old, x) == IF T(old) = NULL /\ x = "" THEN old ELSE RStrip(x)
\* comma-separated
RECURSIVE SplitComma(_)
SplitComma(x) == LET p == FindFrom(x, ", ", 1)
                 IN IF p = 0 THEN <<x>> ELSE <<SubSeq(x, 1, p - 1)>> \o SplitComma(SubSeq(x, p + 2, Len(x)))
TagsIn(x) == Dedup(SelectSeq(Map(SplitComma(x), Strip), LAMBDA e : e # ""))
ColTags(old, x) == IF LST(old) = <<>> /\ x = "" THEN old ELSE TagsIn(x)
RowIds(rows, mark) == Map(SelectSeq(rows, LAMBDA r : HasSub(CellAt(r, 1), mark)), LAMBDA r : [id |-> NumIn(CellAt(r, 1)), r |-> r])
CharFrom(e, r) ==
    [e EXCEPT !.title = Col(e.title, CellAt(r, 2)), !.full = Col(e.full, CellAt(r, 3)), !.aka = Col(e.aka, CellAt(r, 4)),
              !.desc = Col(e.desc, CellAt(r, 5)), !.bio = Col(e.bio, CellAt(r, 6)), !.goals = Col(e.goals, CellAt(r, 7)),
              !.major = Bool(HasSub(CellAt(r, 8), "Major")), !.tags = ColTags(e.tags, CellAt(r, 9)), !.notes = Col(e.notes, CellAt(r, 10))]
PlaceFrom(e, r) ==
    [e EXCEPT !.title = Col(e.title, CellAt(r, 2)), !.desc = Col(e.desc, CellAt(r, 3)), !.aka = Col(e.aka, CellAt(r, 4)),
              !.tags = ColTags(e.tags, CellAt(r, 5))]
\* the rows decide upon content and order
ByRows(l, rows, Blank(_), From(_, _)) ==
    LET ids == Dedup(Map(rows, LAMBDA x : x.id))
        Old(id) == IF Known(l, id) THEN ById(l, id) ELSE Blank(id)
    IN Map(ids, LAMBDA id : FoldLeft(LAMBDA e, x : From(e, x.r), Old(id), SelectSeq(rows, LAMBDA x : x.id = id)))
RatingFrom(x) == IF x \in {"2", "3", "4", "5", "6", "7", "8", "9", "10"} THEN x ELSE "1"
SceneFrom(s, r) ==
    [s EXCEPT !.title = RStrip(CellAt(r, 2)), !.desc = RStrip(CellAt(r, 3)), !.tags = ColTags(s.tags, CellAt(r, 4)),
              !.notes = Col(s.notes, CellAt(r, 5)), !.react = Bool(HasSub(CellAt(r, 6), "R") \/ HasSub(CellAt(r, 6), "r")),
              !.goal = Col(s.goal, CellAt(r, 7)), !.conf = Col(s.conf, CellAt(r, 8)), !.outc = Col(s.outc, CellAt(r, 9)),
              !.f1 = RatingFrom(CellAt(r, 12)), !.f2 = RatingFrom(CellAt(r, 13)), !.f3 = RatingFrom(CellAt(r, 14)), !.f4 = RatingFrom(CellAt(r, 15)),
              !.status = IF InSeq(CellAt(r, 18), StatusNames) THEN ToString(IndexOf(CellAt(r, 18), StatusNames)) ELSE s.status]
SheetImported(kind, n, rows) ==
    CASE kind = "_charlist" -> [n EXCEPT !.crs = ByRows(n.crs, RowIds(rows, "CrID:"), BlankCharacter, CharFrom)]
      [] kind = "_loclist" -> [n EXCEPT !.lcs = ByRows(n.lcs, RowIds(rows, "LcID:"), BlankElem, PlaceFrom)]
      [] kind = "_itemlist" -> [n EXCEPT !.its = ByRows(n.its, RowIds(rows, "ItID:"), BlankElem, PlaceFrom)]
      [] kind = "_scenelist" -> [n EXCEPT !.scs = FoldLeft(LAMBDA l, x : Upd(l, x.id, LAMBDA s : SceneFrom(s, x.r)), n.scs, RowIds(rows, "ScID:"))]

-----------------------------------------------------------------------------
\* documents of this kind bring their language with them
Located(n, m) == [n EXCEPT !.prj.lang = IF m.lang = "" THEN n.prj.lang ELSE m.lang, !.prj.country = IF m.country = "" THEN n.prj.country ELSE m.country]
Titled(n, m) == [n EXCEPT !.prj.title = T(m.title), !.prj.author = T(m.author), !.prj.desc = T(m.desc)]
Result(n, txt, split, ok) == [n |-> n, txt |-> txt, split |-> split, ok |-> ok]
Formatted(st, m) ==
    IF ~st.ok THEN Result(st.n, st.txt, FALSE, FALSE)
    ELSE LET langs == LangsOfTxt(st.txt, st.ids)
             sp == SplitAll(st.n, st.txt)
         IN Result(Located([sp.n EXCEPT !.prj.languages = langs], m), sp.txt, sp.split, TRUE)

IsOutline(d) == \E i \in DOMAIN d.blocks : d.blocks[i].s = "Heading_20_3"
Imported(kind, n, d) ==
    CASE kind \in SECTIONED -> Formatted(FoldLeft(LAMBDA st, b : SectionStep(st, b, kind), Begin(n), d.blocks), d.meta)
      [] kind = "_proof" -> Formatted(FoldLeft(ProofStep, Begin(n), d.blocks), d.meta)
      [] kind = "_scenes" -> LET st == FoldLeft(LAMBDA st, b : SectionStep(st, b, kind), Begin(n), d.blocks) IN Result(st.n, <<>>, FALSE, st.ok)
      [] kind \in {"_chapters", "_parts"} -> Result(FoldLeft(ChapterDocStep, Begin(n), d.blocks).n, <<>>, FALSE, TRUE)
      [] kind \in {"_characters", "_locations", "_items"} -> Result(FoldLeft(LAMBDA st, b : ElementStep(st, b, kind), Begin(n), d.blocks).n, <<>>, FALSE, TRUE)
      [] kind \in SHEETS -> Result(SheetImported(kind, n, d.rows), <<>>, FALSE, TRUE)
      [] kind = "" -> IF IsOutline(d)
                      THEN LET st == FoldLeft(OutlineStep, Begin(Located(Titled(EmptyProject, d.meta), d.meta)), d.blocks) IN Result(st.n, <<>>, FALSE, st.ok)
                      ELSE Formatted(CloseScene(FoldLeft(WorkStep, Begin(Titled(EmptyProject, d.meta)), d.blocks)), d.meta)
=============================================================================
