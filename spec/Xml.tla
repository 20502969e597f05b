-------------------------------- MODULE Xml --------------------------------
(* Element trees as plain values: [g |-> tag, x |-> text or NULL, k |-> children] *)
EXTENDS Base

Elem(g, x, k) == [g |-> g, x |-> x, k |-> k]
Leaf(g, x) == Elem(g, x, <<>>)

KidIdx(e, g) == {i \in DOMAIN e.k : e.k[i].g = g}
HasKid(e, g) == KidIdx(e, g) # {}
Kid(e, g) == e.k[Min(KidIdx(e, g))]
KidsOf(e, g) == SelectSeq(e.k, LAMBDA c : c.g = g)
\* text of a child; NULL if there is no such child or if it is empty
KidText(e, g) == IF HasKid(e, g) THEN Kid(e, g).x ELSE NULL
\* text of a grandchild in the first subelement p
SubText(e, p, g) == IF HasKid(e, p) THEN KidText(Kid(e, p), g) ELSE NULL
SubHas(e, p, g) == HasKid(e, p) /\ HasKid(Kid(e, p), g)
KidsIn(e, p) == IF HasKid(e, p) THEN Kid(e, p).k ELSE <<>>

DropKids(e, gs) == [e EXCEPT !.k = SelectSeq(e.k, LAMBDA c : c.g \notin gs)]
SetText(e, g, x) ==
    IF HasKid(e, g)
    THEN [e EXCEPT !.k[Min(KidIdx(e, g))].x = x]
    ELSE [e EXCEPT !.k = Append(e.k, Leaf(g, x))]
RemoveKid(e, g) ==
    IF HasKid(e, g)
    THEN LET m == Min(KidIdx(e, g))
         IN [e EXCEPT !.k = SubSeq(e.k, 1, m - 1) \o SubSeq(e.k, m + 1, Len(e.k))]
    ELSE e
\* the children as a bag, for comparisons that do not depend on the order
Bag(s) == [v \in Range2(s) |-> Cardinality({i \in DOMAIN s : s[i] = v})]
=============================================================================
