-------------------------------- MODULE Split --------------------------------
(***************************************************************************)
(* Dividers within imported scene texts. A line that begins with a number   *)
(* sign starts a new part (#), chapter (##), or scene (###); title and      *)
(* description may follow, set off by a vertical bar.                       *)
(*   st.n    the project                                                    *)
(*   st.txt  the lines of the imported scenes by scene ID                   *)
(***************************************************************************)
EXTENDS Doc

BlankScene(id) ==
    [id |-> id, title |-> NULL, desc |-> NULL, content |-> NULL, typ |-> NULL, dne |-> NULL, status |-> NULL, notes |-> NULL,
     tags |-> NOLST, f1 |-> NULL, f2 |-> NULL, f3 |-> NULL, f4 |-> NULL, app |-> NULL, date |-> NULL, time |-> NULL, day |-> NULL,
     ld |-> NULL, lh |-> NULL, lm |-> NULL, react |-> NULL, sub |-> NULL, goal |-> NULL, conf |-> NULL, outc |-> NULL,
     img |-> NULL, chars |-> NOLST, locs |-> NOLST, items |-> NOLST, arcs |-> NULL, mode |-> NULL]
BlankChapter(id) ==
    [id |-> id, title |-> NULL, desc |-> NULL, lev |-> NULL, typ |-> NULL, supT |-> "F", supB |-> "F", trash |-> "F", scs |-> <<>>]

IdSet(l) == {l[i].id : i \in DOMAIN l}
Upd(l, id, F(_)) == [i \in DOMAIN l |-> IF l[i].id = id THEN F(l[i]) ELSE l[i]]

-----------------------------------------------------------------------------
DividerLevel(ln) ==
    IF ln.q \/ ln.r = <<>> THEN ""
    ELSE LET r == ln.r[1]
         IN IF r.t # "t" \/ r.f # <<>> THEN ""
            ELSE IF StartsWith(r.x, "###") THEN "scene" ELSE IF StartsWith(r.x, "##") THEN "chapter"
            ELSE IF StartsWith(r.x, "#") THEN "part" ELSE ""
StripMarks(x) ==
    LET S == {i \in 1..Len(x) : Ch(x, i) \notin {"#", " "}}
    IN IF S = {} THEN "" ELSE SubSeq(x, Min(S), Max(S))
HeadingOf(ln) ==
    LET h == SplitAt(StripMarks(PlainRuns(ln.r)), "|")
    IN [title |-> h[1], desc |-> IF Len(h) > 1 THEN h[2] ELSE ""]

\* the text before the first divider, and one piece for each divider
Pieces(ls) ==
    FoldLeft(LAMBDA acc, ln :
                LET k == DividerLevel(ln)
                IN IF k = "" THEN [acc EXCEPT ![Len(acc)].ls = Append(acc[Len(acc)].ls, ln)]
                   ELSE Append(acc, [k |-> k, h |-> HeadingOf(ln), ls |-> <<>>]),
             <<[k |-> "", h |-> [title |-> "", desc |-> ""], ls |-> <<>>]>>, ls)

Warn(x) == IF T(x) = NULL \/ StartsWith(x, "(!)") THEN x ELSE "(!)" \o x
\* the scene that has been split gets marked for revision
Marked(s) == [s EXCEPT !.desc = Warn(s.desc), !.goal = Warn(s.goal), !.conf = Warn(s.conf), !.outc = Warn(s.outc),
                       !.status = IF s.status \in {"3", "4", "5"} THEN "2" ELSE s.status]
SplitTitle(parent, k) ==
    (IF T(parent.title) = NULL THEN "New Scene"
     ELSE IF Len(parent.title) > 20 THEN SubSeq(parent.title, 1, 20) \o "..." ELSE parent.title)
    \o " Split: " \o ToString(k)
NewScene(id, parent, h, k) ==
    [BlankScene(id) EXCEPT !.title = IF h.title # "" THEN h.title ELSE SplitTitle(parent, k), !.desc = T(h.desc),
        !.status = parent.status, !.typ = parent.typ, !.date = parent.date, !.time = parent.time, !.day = parent.day,
        !.ld = parent.ld, !.lh = parent.lh, !.lm = parent.lm]
NewChapter(id, h, k) ==
    [BlankChapter(id) EXCEPT !.title = IF h.title # "" THEN h.title ELSE IF k = "part" THEN "New Part" ELSE "New Chapter",
        !.desc = T(h.desc), !.lev = IF k = "part" THEN "1" ELSE "0", !.typ = "0"]

\* st: scs, txt, done (chapters before the current one), cur (the current chapter), chIds, k (scenes made of this one), split
AddScene(st, sid, p, h, k) ==
    LET parent == Marked(ById(st.scs, sid))
        id == FreshId(IdSet(st.scs))
    IN [st EXCEPT !.scs = Append(Upd(st.scs, sid, Marked), NewScene(id, parent, h, k)),
                  !.txt = (id :> p.ls) @@ st.txt, !.cur.scs = Append(st.cur.scs, id), !.k = k, !.split = TRUE]
NoHead == [title |-> "", desc |-> ""]
PieceStep(st, sid, p) ==
    IF p.k = "scene" THEN AddScene(st, sid, p, p.h, st.k + 1)
    ELSE LET id == FreshId(st.chIds)
             st2 == [st EXCEPT !.done = Append(st.done, st.cur), !.cur = NewChapter(id, p.h, p.k), !.chIds = st.chIds \cup {id},
                               !.k = 0, !.split = TRUE]
         IN IF p.ls = <<>> THEN st2 ELSE AddScene(st2, sid, p, NoHead, 1)
SceneStep(st, sid) ==
    LET st1 == [st EXCEPT !.cur.scs = Append(st.cur.scs, sid), !.k = 0]
    IN IF sid \notin DOMAIN st.txt THEN st1
       ELSE LET ps == Pieces(st.txt[sid])
            IN IF Len(ps) = 1 THEN st1
               ELSE FoldLeft(LAMBDA s, p : PieceStep(s, sid, p), [st1 EXCEPT !.txt[sid] = ps[1].ls], Tail(ps))
ChapterStep(st, c) ==
    LET st1 == FoldLeft(SceneStep, [st EXCEPT !.cur = [c EXCEPT !.scs = <<>>]], c.scs)
    IN [st1 EXCEPT !.done = Append(st1.done, st1.cur)]

\* -> [n, txt, split]
SplitAll(n, txt) ==
    LET st == FoldLeft(ChapterStep, [scs |-> n.scs, txt |-> txt, done |-> <<>>, cur |-> BlankChapter(""), chIds |-> IdSet(n.chs), k |-> 0, split |-> FALSE],
                       n.chs)
    IN [n |-> [n EXCEPT !.chs = st.done, !.scs = st.scs], txt |-> st.txt, split |-> st.split]
=============================================================================
