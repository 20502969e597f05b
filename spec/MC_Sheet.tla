------------------------------ MODULE MC_Sheet ------------------------------
(***************************************************************************)
(* All small spreadsheets written back to a project: rows of known and      *)
(* unknown elements, unedited, changed, emptied or cut short, repeated, in  *)
(* any order. Laws, and the cases for the program.                          *)
(***************************************************************************)
EXTENDS Import, Json, IOUtils
CONSTANTS MaxRows

VARIABLES kind, bare, rows      \* rows: pairs <<ID, how the row has been edited>>
vars == <<kind, bare, rows>>
Edits == {"same", "empty", "new", "short", "other"}
Picks == ({"2", "3"} \X Edits) \cup ({"9"} \X {"empty", "new"}) \cup {<<"", "new">>}

Init == kind \in SHEETS /\ bare \in BOOLEAN /\ rows = <<>>
Next == Len(rows) < MaxRows /\ \E p \in Picks : rows' = Append(rows, p) /\ UNCHANGED <<kind, bare>>
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------ the project
Who(id) == IF id = "2" THEN "a" ELSE "b"
Elem1(id) == [BlankElem(id) EXCEPT !.title = "T" \o Who(id), !.desc = "D1\nD2" \o Who(id), !.img = "i.png", !.aka = "A" \o Who(id),
                                   !.tags = IF id = "2" THEN <<"x", "y z">> ELSE <<"x">>, !.link = "l"]
Char1(id) == Elem1(id) @@ [birth |-> "b", death |-> "d", notes |-> "N" \o Who(id), bio |-> "B" \o Who(id), goals |-> "G" \o Who(id), full |-> "F" \o Who(id),
                           major |-> IF id = "2" THEN "T" ELSE "F"]
Full == [EmptyProject EXCEPT
    !.prj.title = "N", !.prj.author = "A", !.prj.f1 = "One", !.prj.f2 = "Two", !.prj.f3 = "Three", !.prj.f4 = "Four",
    !.crs = <<Char1("2"), Char1("3")>>, !.lcs = <<Elem1("3"), Elem1("2")>>, !.its = <<Elem1("2"), Elem1("3")>>,
    !.scs = [k \in 1..3 |-> [BlankScene(ToString(k + 1)) EXCEPT !.title = "S" \o ToString(k), !.desc = "D", !.content = "a b c", !.typ = "0", !.dne = "F", !.status = ToString(k),
                                !.notes = "n", !.tags = <<"t">>, !.f1 = "1", !.f2 = "3", !.f3 = "10", !.f4 = "5", !.app = "F", !.react = IF k = 1 THEN "T" ELSE "F",
                                !.sub = "F", !.goal = "g", !.conf = "c", !.outc = "o", !.chars = <<"2">>, !.locs = <<"3", "2">>, !.items = <<"3">>]],
    !.chs = <<[BlankChapter("1") EXCEPT !.title = "C", !.lev = "0", !.typ = "0", !.scs = <<"3", "2", "4">>]>>]
Bare == [EmptyProject EXCEPT
    !.prj.title = "N", !.prj.author = "A",
    !.crs = <<BlankCharacter("2"), BlankCharacter("3")>>, !.lcs = <<BlankElem("3"), BlankElem("2")>>, !.its = <<BlankElem("2"), BlankElem("3")>>,
    !.scs = [k \in 1..3 |-> [BlankScene(ToString(k + 1)) EXCEPT !.title = "S" \o ToString(k), !.typ = "0", !.dne = "F", !.status = "1", !.app = "F", !.react = "F", !.sub = "F"]],
    !.chs = <<[BlankChapter("1") EXCEPT !.title = "C", !.lev = "0", !.typ = "0", !.scs = <<"3", "2", "4">>]>>]
Novel(b) == IF b THEN Bare ELSE Full

\* ------------------------------------------------ the rows
Mark(k) == CASE k = "_charlist" -> "CrID:" [] k = "_loclist" -> "LcID:" [] k = "_itemlist" -> "ItID:" [] OTHER -> "ScID:"
Width(k) == CASE k = "_charlist" -> 10 [] k = "_scenelist" -> 21 [] OTHER -> 5
Sheet0(k, b) == Map(Rows(k, Novel(b), "p", "d"), LAMBDA r : Map(r, LAMBDA c : c.x))
OldRow(k, b, id) == CHOOSE r \in Range2(Sheet0(k, b)) : r[1] = Mark(k) \o id
NewCell(k, j) ==
    CASE k = "_charlist" /\ j = 8 -> "Major" [] k = "_charlist" /\ j = 9 -> "p, q, p" [] k = "_scenelist" /\ j = 4 -> "p, q"
      [] k \in {"_loclist", "_itemlist"} /\ j = 5 -> "p, q"
      [] k = "_scenelist" /\ j = 6 -> "R" [] k = "_scenelist" /\ j \in 12..15 -> "7" [] k = "_scenelist" /\ j = 18 -> "Done"
      [] OTHER -> "new " \o ToString(j)
OtherCell(k, j) ==
    CASE k = "_charlist" /\ j = 8 -> "x" [] k = "_charlist" /\ j = 9 -> ", r ,r" [] k = "_scenelist" /\ j = 4 -> "r"
      [] k = "_scenelist" /\ j = 6 -> "A" [] k = "_scenelist" /\ j \in 12..15 -> "11" [] k = "_scenelist" /\ j = 18 -> "draft"
      [] OTHER -> "l1\nl2 " \o ToString(j)
RowOf(k, b, p) ==
    LET id == IF p[1] = "" THEN "Notes" ELSE Mark(k) \o p[1]
    IN CASE p[2] = "same" -> OldRow(k, b, p[1])
         [] p[2] = "empty" -> <<id>>
         [] p[2] = "short" -> <<id, "new title">>
         [] p[2] = "new" -> <<id>> \o [j \in 1..(Width(k) - 1) |-> NewCell(k, j + 1)]
         [] p[2] = "other" -> <<id>> \o [j \in 1..(Width(k) - 1) |-> IF j % 2 = 1 THEN OtherCell(k, j + 1) ELSE ""]
\* all rows have the same width
Wide(k, r) == r \o [j \in 1..(Width(k) - Len(r)) |-> ""]
SheetOf(k, b, ps) == <<Sheet0(k, b)[1]>> \o Map(ps, LAMBDA p : Wide(k, RowOf(k, b, p)))
Cells(t) == Map(t, LAMBDA r : Map(r, LAMBDA x : [x |-> x]))
After(k, b, ps) == SheetImported(k, Novel(b), Cells(SheetOf(k, b, ps)))

\* ------------------------------------------------ laws
ListOf(k, n) == CASE k = "_charlist" -> n.crs [] k = "_loclist" -> n.lcs [] k = "_itemlist" -> n.its [] OTHER -> n.scs
Columns(k) ==
    CASE k = "_charlist" -> <<<<2, "title">>, <<3, "full">>, <<4, "aka">>, <<5, "desc">>, <<6, "bio">>, <<7, "goals">>, <<10, "notes">>>>
      [] k = "_scenelist" -> <<<<2, "title">>, <<3, "desc">>, <<5, "notes">>, <<7, "goal">>, <<8, "conf">>, <<9, "outc">>>>
      [] OTHER -> <<<<2, "title">>, <<3, "desc">>, <<4, "aka">>>>
TagColumn(k) == CASE k = "_charlist" -> 9 [] k = "_scenelist" -> 4 [] OTHER -> 5
IdsOf(ps) == Dedup(SelectSeq(Map(ps, LAMBDA p : p[1]), LAMBDA x : x # ""))
LastOf(ps, id) == LET q == SelectSeq(ps, LAMBDA p : p[1] = id) IN q[Len(q)]
Same(x, y) == Txt0(x) = Txt0(y)
R(x) == IF x \in {NULL, "", "1"} THEN "" ELSE x
Others(k, n) == CASE k = "_charlist" -> [n EXCEPT !.crs = <<>>] [] k = "_loclist" -> [n EXCEPT !.lcs = <<>>]
                  [] k = "_itemlist" -> [n EXCEPT !.its = <<>>] [] OTHER -> [n EXCEPT !.scs = <<>>]

Now == After(kind, bare, rows)
L0 == ListOf(kind, Novel(bare))
\* the rows decide which elements there are, and in which order; scenes neither come nor go
Order == Map(ListOf(kind, Now), LAMBDA e : e.id) = IF kind = "_scenelist" THEN Map(L0, LAMBDA e : e.id) ELSE IdsOf(rows)
\* the last row of an element decides upon its texts and tags
Decide == LET L == ListOf(kind, Now) IN \A i \in DOMAIN L : InSeq(L[i].id, IdsOf(rows)) =>
    LET r == RowOf(kind, bare, LastOf(rows, L[i].id))
        At1(j) == IF j \in DOMAIN r THEN r[j] ELSE ""
    IN /\ \A c \in DOMAIN Columns(kind) : Same(L[i][Columns(kind)[c][2]], At1(Columns(kind)[c][1]))
       /\ Range2(LST(L[i].tags)) = Range2(SelectSeq(Map(SplitComma(At1(TagColumn(kind))), Strip), LAMBDA x : x # ""))
       /\ NoDup(LST(L[i].tags))
       /\ (kind = "_charlist" => L[i].major = Bool(At1(8) = "Major"))
       /\ (kind = "_scenelist" => /\ L[i].react = Bool(At1(6) = "R")
                                  /\ R(L[i].f1) = (IF At1(12) = "11" THEN "" ELSE R(At1(12))) /\ R(L[i].f4) = (IF At1(15) = "11" THEN "" ELSE R(At1(15)))
                                  /\ (At1(18) = "Done" => L[i].status = "5")
                                  /\ (At1(18) \notin Range2(StatusNames) /\ "new" \notin {rows[m][2] : m \in DOMAIN rows} => L[i].status = ById(L0, L[i].id).status))
\* nothing that the sheet does not show changes, and nothing of elements without a row
Frame == /\ Others(kind, Now) = Others(kind, Novel(bare))
         /\ LET L == ListOf(kind, Now) IN \A i \in DOMAIN L : Known(L0, L[i].id) =>
              LET o == ById(L0, L[i].id) e == L[i]
              IN IF ~InSeq(e.id, IdsOf(rows)) THEN e = o
                 ELSE CASE kind = "_scenelist" -> e.content = o.content /\ e.typ = o.typ /\ e.dne = o.dne /\ e.app = o.app /\ e.chars = o.chars /\ e.locs = o.locs /\ e.items = o.items
                                                  /\ (LastOf(rows, e.id)[2] = "same" /\ Cardinality({i2 \in DOMAIN rows : rows[i2][1] = e.id}) = 1 => e.status = o.status)
                        [] kind = "_charlist" -> e.img = o.img /\ e.link = o.link /\ e.birth = o.birth /\ e.death = o.death
                        [] OTHER -> e.img = o.img /\ e.link = o.link
\* what is exported and written back without an edit stays what it is
Unedited == (\A i \in DOMAIN rows : rows[i][2] = "same") /\ NoDup(Map(rows, LAMBDA p : p[1])) =>
    LET L == ListOf(kind, Now) IN \A i \in DOMAIN L :
        LET o == ById(L0, L[i].id) e == L[i]
        IN /\ \A c \in DOMAIN Columns(kind) : Same(e[Columns(kind)[c][2]], o[Columns(kind)[c][2]])
           /\ LST(e.tags) = LST(o.tags)
           /\ (kind = "_charlist" => e.major = o.major)
           /\ (kind = "_scenelist" => e.react = o.react /\ e.status = o.status /\ R(e.f1) = R(o.f1) /\ R(e.f2) = R(o.f2) /\ R(e.f3) = R(o.f3) /\ R(e.f4) = R(o.f4))
\* writing the new sheet back changes nothing any more
Stable == LET n1 == Now
              n2 == SheetImported(kind, n1, Rows(kind, n1, "p", "d"))
              L1 == ListOf(kind, n1)
              L2 == ListOf(kind, n2)
          IN /\ Others(kind, n2) = Others(kind, n1)
             /\ Map(L1, LAMBDA e : e.id) = Map(L2, LAMBDA e : e.id)
             /\ \A i \in DOMAIN L1 : /\ \A c \in DOMAIN Columns(kind) : Same(L1[i][Columns(kind)[c][2]], L2[i][Columns(kind)[c][2]])
                                     /\ LST(L1[i].tags) = LST(L2[i].tags)

\* ------------------------------------------------ the cases for the program
Seqs == UNION {[1..m -> Picks] : m \in 0..MaxRows}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<
    <<[novels |-> <<Full, Bare>>]>> \o
    SetToSeq({[kind |-> k, bare |-> IF b THEN 1 ELSE 0, rows |-> SheetOf(k, b, ps)] : k \in SHEETS, b \in BOOLEAN, ps \in Seqs})>>)
=============================================================================
