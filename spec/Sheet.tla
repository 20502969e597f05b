-------------------------------- MODULE Sheet --------------------------------
(***************************************************************************)
(* What each kind of spreadsheet consists of: a sequence of rows of cells,  *)
(* computed from the project. The first row holds the headings.             *)
(*   n  the project    name  its file name without extension    dir  its folder *)
(***************************************************************************)
EXTENDS Doc, Count

SHEETS == {"_charlist", "_loclist", "_itemlist", "_scenelist"}

Cell(x) == [x |-> RStrip(Txt0(x)), a |-> "", num |-> FALSE]
Num(x) == [x |-> Txt0(x), a |-> "", num |-> TRUE]
LinkCell(x, a) == [x |-> x, a |-> a, num |-> FALSE]
Row(xs) == Map(xs, Cell)
List(l) == Join(LST(l), ", ")

CharHead == Row(<<"ID", "Name", "Full name", "Aka", "Description", "Bio", "Goals", "Importance", "Tags", "Notes">>)
PlaceHead == Row(<<"ID", "Name", "Description", "Aka", "Tags">>)
SceneHead(n) == Row(<<"Scene link", "Scene title", "Scene description", "Tags", "Scene notes", "A/R", "Goal", "Conflict", "Outcome",
                      "Scene", "Words total", n.prj.f1, n.prj.f2, n.prj.f3, n.prj.f4, "Word count", "Letter count", "Status",
                      "Characters", "Locations", "Items">>)

CharRow(e) == Row(<<"CrID:" \o e.id, e.title, e.full, e.aka, e.desc, e.bio, e.goals, IF e.major = "T" THEN "Major" ELSE "Minor",
                    List(e.tags), e.notes>>)
PlaceRow(e, x) == Row(<<x \o ":" \o e.id, e.title, e.desc, e.aka, List(e.tags)>>)

StatusNames == <<"Outline", "Draft", "1st Edit", "2nd Edit", "Done">>
StatusName(s) == IF s \in {"1", "2", "3", "4", "5"} THEN StatusNames[NatOf(s)] ELSE ""
\* a rating of 1 means that there is none
Rating(x) == IF x = "1" THEN "" ELSE x
NamesOf(refs, l) == Map(LST(refs), LAMBDA id : Txt0(ById(l, id).title))

\* the scenes that count, in order
ListedScenes(n) ==
    Concat([i \in DOMAIN n.chs |->
        LET c == n.chs[i]
            cls == ChapterClass(n, c, FALSE)
        IN SelectSeq(ScenesOf(n, c), LAMBDA s : SceneClass(c, s, cls) = "normal")])
RECURSIVE SumWords(_, _)
SumWords(scs, k) == IF k = 0 THEN 0 ELSE SumWords(scs, k - 1) + WordsOf(scs[k].content)

SceneRow(n, name, dir, scs, k) ==
    LET s == scs[k]
    IN <<LinkCell("ScID:" \o s.id, "file:///" \o dir \o "/" \o name \o "_manuscript.odt#ScID:" \o s.id \o "|region"),
         Cell(s.title), Cell(s.desc), Cell(List(s.tags)), Cell(s.notes), Cell(IF s.react = "T" THEN "R" ELSE "A"),
         Cell(s.goal), Cell(s.conf), Cell(s.outc), Num(ToString(k)), Num(ToString(SumWords(scs, k))),
         Num(Rating(s.f1)), Num(Rating(s.f2)), Num(Rating(s.f3)), Num(Rating(s.f4)),
         Num(ToString(WordsOf(s.content))), Num(ToString(LettersOf(s.content))), Cell(StatusName(s.status)),
         Cell(List(NamesOf(s.chars, n.crs))), Cell(List(NamesOf(s.locs, n.lcs))), Cell(List(NamesOf(s.items, n.its)))>>

RECURSIVE TrimRow(_)
TrimRow(r) == IF r # <<>> /\ r[Len(r)].x = "" /\ r[Len(r)].a = "" THEN TrimRow(SubSeq(r, 1, Len(r) - 1)) ELSE r
Rows(kind, n, name, dir) ==
    LET scs == ListedScenes(n)
        all == CASE kind = "_charlist" -> <<CharHead>> \o Map(n.crs, CharRow)
                 [] kind = "_loclist" -> <<PlaceHead>> \o Map(n.lcs, LAMBDA e : PlaceRow(e, "LcID"))
                 [] kind = "_itemlist" -> <<PlaceHead>> \o Map(n.its, LAMBDA e : PlaceRow(e, "ItID"))
                 [] kind = "_scenelist" -> <<SceneHead(n)>> \o [k \in DOMAIN scs |-> SceneRow(n, name, dir, scs, k)]
    IN Map(all, TrimRow)

-----------------------------------------------------------------------------
(* Comparison *)
ColName(kind, n, j) == LET h == Rows(kind, [n EXCEPT !.crs = <<>>, !.lcs = <<>>, !.its = <<>>, !.chs = <<>>], "", "")[1]
                       IN IF j <= 15 /\ j >= 12 /\ kind = "_scenelist" THEN "Rating" ELSE IF j <= Len(h) THEN h[j].x ELSE "surplus"
CellFaults(a, e) ==
    (IF a.x # e.x THEN {"value"} ELSE {}) \cup (IF a.a # e.a THEN {"link"} ELSE {})
    \cup (IF e.num /\ e.x # "" /\ (a.v # e.x \/ a.y # "float") THEN {"number"} ELSE {})
    \cup (IF ~e.num /\ (a.v # "" \/ a.y = "float") THEN {"number"} ELSE {})
EmptyCell == [x |-> "", a |-> "", num |-> FALSE]
EmptyAct == [x |-> "", a |-> "", v |-> "", y |-> ""]
At(r, j, dflt) == IF j \in DOMAIN r THEN r[j] ELSE dflt
RowFaults(kind, n, a, e, head) ==
    UNION {LET fs == CellFaults(At(a, j, EmptyAct), At(e, j, EmptyCell))
           IN {IF head THEN "heading" ELSE f \o "(" \o ColName(kind, n, j) \o ")" : f \in fs}
           : j \in (DOMAIN a) \cup (DOMAIN e)}
SheetFaults(kind, n, act, exp) ==
    IF Len(act) # Len(exp) THEN {"rows"}
    ELSE IF \E i \in DOMAIN exp : i > 1 /\ At(act[i], 1, EmptyAct).x # exp[i][1].x THEN {"order"}
    ELSE UNION {RowFaults(kind, n, act[i], exp[i], i = 1) : i \in DOMAIN exp}
=============================================================================
