--------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* What each kind of text document consists of: a sequence of blocks        *)
(* (headings, paragraphs, and the beginnings and ends of named sections)    *)
(* computed from the project.                                               *)
(*   n     the project       name  the project's file name without extension *)
(***************************************************************************)
EXTENDS Markup, Yw7

TEXTDOCS == {"", "_manuscript", "_proof", "_notes", "_todo", "_scenes", "_chapters", "_parts", "_brf_synopsis",
             "_characters", "_items", "_locations", "_xref"}
FORMATTED == {"", "_manuscript", "_proof", "_notes", "_todo"}

Sec(s) == Block("sec", s, <<>>)
End == Block("end", "", <<>>)
HStyle(k) == CASE k = "h1" -> "Heading_20_1" [] k = "h2" -> "Heading_20_2" [] k = "h3" -> "Heading_20_3"
H(k, x) == Block(k, HStyle(k), AddTextRun(<<>>, x, <<>>))
HLink(k, x, a) == Block(k, HStyle(k), IF x = "" THEN <<>> ELSE <<[RunT(x, <<>>) EXCEPT !.a = a]>>)
HHidden(x) == Block("h3", "Invisible_20_Heading_20_3", AddTextRun(<<>>, x, <<>>))
Divider == P1("Heading_20_4", "* * *")

SceneById(n, id) == LET k == CHOOSE k \in DOMAIN n.scs : n.scs[k].id = id IN n.scs[k]
ById(l, id) == LET k == CHOOSE k \in DOMAIN l : l[k].id = id IN l[k]
Known(l, id) == \E k \in DOMAIN l : l[k].id = id
ScenesOf(n, c) == Map(c.scs, LAMBDA id : SceneById(n, id))
AuthorOf(n) == Txt0(n.prj.author)

\* which kind of chapter this is; the order counts
ChapterClass(n, c, parts) ==
    CASE c.typ = "2" -> "todo" [] c.typ = "1" -> "notes" [] c.typ = "3" -> "unused"
      [] c.scs # <<>> /\ \A i \in DOMAIN c.scs : SceneById(n, c.scs[i]).dne = "T" -> "hidden"
      [] c.lev = "1" /\ parts -> "part"
      [] OTHER -> "chapter"
SceneClass(c, s, cls) ==
    CASE s.typ = "2" -> "todo" [] s.typ = "1" -> "notes" [] s.typ = "3" \/ c.typ = "3" -> "unused"
      [] s.dne = "T" \/ cls = "hidden" -> "hidden"
      [] StartsWith(Txt0(s.content), "<HTML>") \/ StartsWith(Txt0(s.content), "<TEX>") -> "code"
      [] OTHER -> "normal"

-----------------------------------------------------------------------------
(* Raw code for other target formats is left out of the novel document *)
RECURSIVE DropCode(_, _)
DropCode(x, code) ==
    LET open == "<" \o code \o " "
        shut == "/" \o code \o ">"
        Starts == {i \in 1..Len(x) : Occurs(x, i, open)}
        EndOf(i) == LET j == i + Len(open)
                        S == {k \in (j + 1)..Len(x) : Occurs(x, k, shut) /\ \A m \in j..k : Ch(x, m) # "\n"}
                    IN IF S = {} THEN 0 ELSE Min(S) + Len(shut)
        Good == {i \in Starts : EndOf(i) > 0}
    IN IF Good = {} THEN x
       ELSE LET i == Min(Good) IN SubSeq(x, 1, i - 1) \o DropCode(SubSeq(x, EndOf(i), Len(x)), code)
RECURSIVE DropAll(_, _)
DropAll(x, p) == LET i == FindFrom(x, p, 1) IN IF i = 0 THEN x ELSE SubSeq(x, 1, i - 1) \o DropAll(SubSeq(x, i + Len(p), Len(x)), p)
WithoutCode(x) == FoldLeft(DropCode, DropAll(x, "<RTFBRK>"), <<"HTM", "TEX", "RTF", "epub", "mobi", "rtfimg">>)

(* Comments that begin with a note mark are footnotes or endnotes of the novel document. *)
RECURSIVE Blanks(_, _)
Blanks(x, i) == IF i <= Len(x) /\ Ch(x, i) = " " THEN Blanks(x, i + 1) ELSE i
RECURSIVE Stars(_, _)
Stars(x, i) == IF i <= Len(x) /\ Ch(x, i) = "*" THEN Stars(x, i + 1) ELSE i
NoteMark(x) == LET b == Blanks(x, 1)
                   e == Stars(x, b + 3)
               IN IF (Occurs(x, b, "@fn") \/ Occurs(x, b, "@en")) /\ e <= Len(x) /\ Ch(x, e) = " "
                  THEN [is |-> TRUE, class |-> IF Occurs(x, b, "@fn") THEN "footnote" ELSE "endnote",
                        star |-> Occurs(x, b, "@fn") /\ e > b + 3, from |-> e + 1]
                  ELSE [is |-> FALSE]
\* the plain beginning of a comment's first paragraph decides
NoteOf(r) == IF r.t = "c" /\ r.p # <<>> /\ r.p[1].r # <<>> /\ r.p[1].r[1].t = "t" /\ r.p[1].r[1].f = <<>>
             THEN NoteMark(r.p[1].r[1].x) ELSE [is |-> FALSE]
NoteStyle(class) == IF class = "footnote" THEN "Footnote" ELSE "Endnote"
NoteParas(r, m) ==
    [i \in DOMAIN r.p |->
        LET q == r.p[i]
            s == IF i = 1 \/ q.s = "First_20_line_20_indent" THEN NoteStyle(m.class) ELSE q.s
        IN [s |-> s, r |-> IF i = 1 THEN AddTextRun(<<>>, SubSeq(q.r[1].x, m.from, Len(q.r[1].x)), <<>>) \o SubSeq(q.r, 2, Len(q.r)) ELSE q.r]]
\* number the notes of the whole document
NoteStep(st, r) ==
    LET m == NoteOf(r)
    IN IF ~m.is THEN [st EXCEPT !.r = Append(st.r, r)]
       ELSE LET k == st.k + 1
                lab == IF m.star THEN "*" ELSE ToString(k)
            IN [st EXCEPT !.k = IF m.star THEN st.k ELSE k,
                          !.r = Append(st.r, [t |-> "n", x |-> m.class \o " " \o lab, f |-> <<>>, a |-> "", p |-> NoteParas(r, m)])]
NoteBlocks(bs) ==
    FoldLeft(LAMBDA st, b : LET res == FoldLeft(NoteStep, [k |-> st.k, r |-> <<>>], b.r)
                            IN [k |-> res.k, bs |-> Append(st.bs, [b EXCEPT !.r = res.r])],
             [k |-> 0, bs |-> <<>>], bs).bs

-----------------------------------------------------------------------------
(* Chapters and scenes *)
ChSec(c) == Sec("ChID:" \o c.id)
ScSec(s) == Sec("ScID:" \o s.id)
ToManuscript(name, c) == "../" \o name \o "_manuscript.odt#ChID:" \o c.id \o "|region"
ShownTitle(c) == IF c.supT = "T" THEN "" ELSE Txt0(c.title)

ChapterHead(kind, n, name, c, cls) ==
    LET t == Txt0(c.title)
    IN CASE kind = "" /\ cls = "part" -> <<H("h1", ShownTitle(c))>>
         [] kind = "" /\ cls = "chapter" -> <<H("h2", ShownTitle(c))>>
         [] kind = "_manuscript" /\ cls = "part" -> <<ChSec(c), H("h1", ShownTitle(c))>>
         [] kind = "_manuscript" /\ cls = "chapter" -> <<ChSec(c), H("h2", ShownTitle(c))>>
         [] kind \in {"_proof", "_brf_synopsis"} /\ cls = "part" -> <<H("h1", t)>>
         [] kind \in {"_proof", "_brf_synopsis"} /\ cls = "chapter" -> <<H("h2", t)>>
         [] kind = "_scenes" /\ cls = "part" -> <<ChSec(c), H("h1", t)>>
         [] kind = "_scenes" /\ cls = "chapter" -> <<ChSec(c), HLink("h2", t, ToManuscript(name, c))>>
         [] kind = "_chapters" /\ cls = "part" -> <<H("h1", t)>>
         [] kind = "_chapters" /\ cls = "chapter" ->
               <<ChSec(c), HLink("h2", t, ToManuscript(name, c))>> \o PlainParas(c.desc, "Text_20_body") \o <<End>>
         [] kind = "_parts" /\ cls = "part" ->
               <<ChSec(c), HLink("h1", t, ToManuscript(name, c))>> \o PlainParas(c.desc, "Text_20_body") \o <<End>>
         [] kind = "_notes" /\ cls = "notes" -> <<ChSec(c), H(IF c.lev = "1" THEN "h1" ELSE "h2", ShownTitle(c))>>
         [] kind = "_todo" /\ cls = "todo" -> <<ChSec(c), H(IF c.lev = "1" THEN "h1" ELSE "h2", ShownTitle(c))>>
         [] OTHER -> <<>>
ChapterEnd(kind, cls) ==
    IF (kind \in {"_manuscript", "_scenes"} /\ cls \in {"part", "chapter"})
       \/ (kind = "_notes" /\ cls = "notes") \/ (kind = "_todo" /\ cls = "todo")
    THEN <<End>> ELSE <<>>

\* the classes of scenes a document shows, and whether it marks off scenes and runs appended ones on
ShownClass(kind) == CASE kind \in {"", "_manuscript", "_proof", "_scenes", "_brf_synopsis"} -> {"normal"}
                      [] kind = "_notes" -> {"notes"} [] kind = "_todo" -> {"todo"} [] OTHER -> {}
Divided(kind) == kind \in {"", "_manuscript", "_scenes"}

SceneBody(kind, n, langs, s, first) ==
    LET t == Txt0(s.title)
        style == IF s.app = "T" /\ ~first /\ Divided(kind) THEN "First_20_line_20_indent" ELSE "Text_20_body"
        text == Paras(s.content, langs, style, AuthorOf(n))
    IN CASE kind = "" -> Paras(WithoutCode(Txt0(s.content)), langs, style, AuthorOf(n))
         [] kind = "_manuscript" -> <<HHidden(t), ScSec(s)>> \o text \o <<End>>
         [] kind \in {"_notes", "_todo"} -> <<H("h3", t), ScSec(s)>> \o text \o <<End>>
         [] kind = "_proof" -> <<H("h3", t), P1("scene_20_mark", "[ScID:" \o s.id \o "]")>>
                               \o ParasUnquoted(s.content, langs, style, AuthorOf(n))
                               \o <<P1("scene_20_mark", "[/ScID]")>>
         [] kind = "_scenes" -> <<HHidden(t), ScSec(s)>> \o PlainParas(s.desc, style) \o <<End>>
         [] kind = "_brf_synopsis" -> <<P1("Text_20_body", t)>>

ScenesIn(kind, n, langs, c, cls) ==
    LET shown == SelectSeq(ScenesOf(n, c), LAMBDA s : SceneClass(c, s, cls) \in ShownClass(kind))
    IN Concat([i \in DOMAIN shown |->
          (IF Divided(kind) /\ i > 1 /\ shown[i].app # "T" THEN <<Divider>> ELSE <<>>)
          \o SceneBody(kind, n, langs, shown[i], i = 1)])

HasParts(kind) == kind \notin {"_notes", "_todo"}
Chapters(kind, n, name, langs) ==
    Concat([i \in DOMAIN n.chs |->
        LET c == n.chs[i]
            cls == ChapterClass(n, c, HasParts(kind))
        IN ChapterHead(kind, n, name, c, cls) \o ScenesIn(kind, n, langs, c, cls) \o ChapterEnd(kind, cls)])

-----------------------------------------------------------------------------
(* World elements *)
Aka(e) == IF T(e.aka) = NULL THEN "" ELSE " (\"" \o e.aka \o "\")"
Character(e) ==
    LET Part(h, x, v) == <<H("h3", h), Sec("CrID_" \o x \o ":" \o e.id)>> \o PlainParas(v, "Text_20_body") \o <<End>>
    IN <<H("h2", Txt0(e.title) \o (IF T(e.full) = NULL THEN "" ELSE "/" \o e.full) \o Aka(e)), Sec("CrID:" \o e.id)>>
       \o Part("Description", "desc", e.desc) \o Part("Bio", "bio", e.bio)
       \o Part("Goals", "goals", e.goals) \o Part("Notes", "notes", e.notes) \o <<End>>
Place(e, x) == <<H("h2", Txt0(e.title) \o Aka(e)), Sec(x \o ":" \o e.id)>> \o PlainParas(e.desc, "Text_20_body") \o <<End>>

-----------------------------------------------------------------------------
(* Cross reference *)
AllScenes(n) == Concat([i \in DOMAIN n.chs |-> [j \in DOMAIN n.chs[i].scs |-> [s |-> SceneById(n, n.chs[i].scs[j]), ch |-> i]]])
\* one line for the k-th scene of the novel
SceneLine(name, all, k) ==
    LET s == all[k].s
        rest == " (Ch " \o ToString(all[k].ch) \o ") " \o Txt0(s.title)
        no == ToString(k)
    IN CASE s.typ = "1" -> P1("scene_20_mark_20_notes", RStrip(no \o rest \o " (Notes)"))
         [] s.typ = "2" -> P1("scene_20_mark_20_todo", RStrip(no \o rest \o " (ToDo)"))
         [] s.typ = "3" -> P1("scene_20_mark_20_unused", RStrip(no \o rest \o " (Unused)"))
         [] OTHER -> Block("p", "scene_20_mark",
                           <<[RunT(no, <<>>) EXCEPT !.a = "../" \o name \o "_manuscript.odt#ScID:" \o s.id \o "|region"],
                             RunT(RStrip(rest), <<>>)>>)
SceneList(h, name, all, Of(_)) ==
    LET ks == SelectSeq([k \in DOMAIN all |-> k], LAMBDA k : Of(all[k].s))
    IN IF ks = <<>> THEN <<>> ELSE <<H("h2", h)>> \o Map(ks, LAMBDA k : SceneLine(name, all, k))
ElemTags(l) == Dedup(Concat([i \in DOMAIN l |-> LST(l[i].tags)]))
ElemLine(e, a, more) ==
    Block("p", "Text_20_body",
          (IF T(e.title) = NULL THEN <<>> ELSE <<[RunT(e.title, <<>>) EXCEPT !.a = a]>>)
          \o AddTextRun(<<>>, IF more = "" THEN "" ELSE " " \o more, <<>>))
Tagged(l, h, Line(_)) ==
    LET tags == ElemTags(l)
    IN Concat([i \in DOMAIN tags |->
          <<H("h2", h \o " tagged " \o tags[i] \o ":")>>
          \o Map(SelectSeq(l, LAMBDA e : InSeq(tags[i], LST(e.tags))), Line)])
Xref(n, name) ==
    LET all == AllScenes(n)
        scs == Map(all, LAMBDA x : x.s)
        File(x, id, e) == "../" \o name \o "_" \o x \o ".odt#" \o id \o ":" \o e.id \o "|region"
        Lists(l, h, Refs(_)) == Concat([i \in DOMAIN l |-> SceneList("Scenes with " \o h \o " " \o Txt0(l[i].title) \o ":", name, all,
                                                               LAMBDA s : InSeq(l[i].id, LST(Refs(s))))])
        stags == ElemTags(scs)
    IN Lists(n.crs, "Character", LAMBDA s : s.chars) \o Lists(n.lcs, "Location", LAMBDA s : s.locs)
       \o Lists(n.its, "Item", LAMBDA s : s.items)
       \o Concat([i \in DOMAIN stags |-> SceneList("Scenes tagged " \o stags[i] \o ":", name, all, LAMBDA s : InSeq(stags[i], LST(s.tags)))])
       \o Tagged(n.crs, "Characters", LAMBDA e : ElemLine(e, File("characters", "CrID", e), Txt0(e.full)))
       \o Tagged(n.lcs, "Locations", LAMBDA e : ElemLine(e, File("locations", "LcID", e), ""))
       \o Tagged(n.its, "Items", LAMBDA e : ElemLine(e, File("items", "ItID", e), ""))

-----------------------------------------------------------------------------
Blocks(kind, n, name) ==
    LET langs == LST(LangsOf2(n))
        head == <<P1("Title", Txt0(n.prj.title)), P1("Subtitle", Txt0(n.prj.author))>>
        body == CASE kind = "_characters" -> Concat(Map(n.crs, Character))
                  [] kind = "_locations" -> Concat(Map(n.lcs, LAMBDA e : Place(e, "LcID")))
                  [] kind = "_items" -> Concat(Map(n.its, LAMBDA e : Place(e, "ItID")))
                  [] kind = "_xref" -> Xref(n, name)
                  [] kind = "" -> NoteBlocks(Chapters(kind, n, name, langs))
                  [] OTHER -> Chapters(kind, n, name, langs)
    IN head \o body

\* the languages and texts in the head of the document package
MetaOf(n, sys) ==
    LET loc == LocaleOf(n.prj.lang, n.prj.country, sys.lang, sys.country)
    IN [title |-> Txt0(n.prj.title), author |-> Txt0(n.prj.author), desc |-> Txt0(n.prj.desc), lang |-> loc.l, country |-> loc.c]

-----------------------------------------------------------------------------
(* Comparison of documents, told apart by what is wrong *)
Skel(b) == [k |-> b.k, s |-> IF b.k = "p" THEN "" ELSE b.s]
PlainBlock(b) == Join0(Map(b.r, LAMBDA r : IF r.t = "t" THEN r.x ELSE ""))
Notes(b) == SelectSeq(b.r, LAMBDA r : r.t # "t")
Formats(b) == Map(b.r, LAMBDA r : <<r.t, IF r.t = "t" THEN r.x ELSE "", r.f>>)
Links(b) == Map(b.r, LAMBDA r : r.a)
BlockFaults(a, e) ==
    (IF a.s # e.s THEN {"style"} ELSE {})
    \cup (IF PlainBlock(a) # PlainBlock(e) THEN {IF a.k \in {"h1", "h2", "h3"} THEN "heading" ELSE "text"} ELSE {})
    \cup (IF Notes(a) # Notes(e) THEN {"comment"} ELSE {})
    \cup (IF Links(a) # Links(e) /\ PlainBlock(a) = PlainBlock(e) /\ Len(a.r) = Len(e.r) THEN {"link"} ELSE {})
    \cup (IF Formats(a) # Formats(e) /\ PlainBlock(a) = PlainBlock(e) THEN {"format"} ELSE {})
DocFaults(act, exp) ==
    IF act = exp THEN {}
    ELSE IF Map(act, Skel) # Map(exp, Skel) THEN {"structure"}
    ELSE UNION {BlockFaults(act[i], exp[i]) : i \in DOMAIN act}
=============================================================================
