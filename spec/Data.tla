-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* The separate XML files of characters, locations and items made from a    *)
(* project (yWriter can read them into another project).                    *)
(***************************************************************************)
EXTENDS Yw7

PARTS == <<"CHARACTERS", "LOCATIONS", "ITEMS">>
FILES == <<"_Characters.xml", "_Locations.xml", "_Items.xml">>
NoFiles == <<NoTree, NoTree, NoTree>>

\* what the files hold of project n
DataOf(n) == [crs |-> Map(n.crs, SavedCharacter), lcs |-> Map(n.lcs, SavedElem), its |-> Map(n.its, SavedElem)]
ReadData(trees) == [crs |-> Map(trees[1].k, LAMBDA e : SavedCharacter(ReadCharacter(e))), lcs |-> Map(trees[2].k, LAMBDA e : SavedElem(ReadElement(e))),
                    its |-> Map(trees[3].k, LAMBDA e : SavedElem(ReadElement(e)))]
OneEach(es) == \A i, j \in DOMAIN es : KidText(es[i], "ID") = KidText(es[j], "ID") => i = j
DataFaults(trees, n) ==
    LET x == DataOf(n)
        y == ReadData(trees)
        singles == <<"CHARACTER", "LOCATION", "ITEM">>
    IN IF \E i \in 1..3 : trees[i].g # PARTS[i] THEN {"root"}
       ELSE (IF \E i \in 1..3 : \E j \in DOMAIN trees[i].k : trees[i].k[j].g # singles[i] THEN {"entry"} ELSE {})
            \cup (IF \E i \in 1..3 : ~OneEach(trees[i].k) THEN {"double"} ELSE {})
            \cup DiffSeq("cr.", y.crs, x.crs) \cup DiffSeq("lc.", y.lcs, x.lcs) \cup DiffSeq("it.", y.its, x.its)
=============================================================================
