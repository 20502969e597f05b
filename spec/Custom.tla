------------------------------- MODULE Custom -------------------------------
(***************************************************************************)
(* Custom fields of applications built on the library: an application      *)
(* declares names for each kind of element; what it keeps under them       *)
(* belongs to the project, whereas fields nobody declared stay as they are. *)
(* kw: for each section a sequence of [id, v], v a function from declared   *)
(* names to values. The project itself is the section "prj" with one entry. *)
(***************************************************************************)
EXTENDS Purge

Sections == {"prj", "chs", "scs", "crs", "lcs", "its", "pns"}
Listed == Sections \ {"prj"}
SectTag == [chs |-> "CHAPTERS", scs |-> "SCENES", crs |-> "CHARACTERS", lcs |-> "LOCATIONS", its |-> "ITEMS", pns |-> "PROJECTNOTES"]
\* the program's own names: bound to attributes that are handled elsewhere
Own == [prj |-> {"Field_LanguageCode", "Field_CountryCode"}, scs |-> {"Field_SceneArcs", "Field_SceneMode"},
        crs |-> {"Field_Link", "Field_BirthDate", "Field_DeathDate"}, lcs |-> {"Field_Link"}, its |-> {"Field_Link"}, chs |-> {}, pns |-> {}]

Entries(root, s) == IF s = "prj" THEN <<Kid(root, "PROJECT")>> ELSE SelectSeq(KidsIn(root, SectTag[s]), LAMBDA e : HasKid(e, "ID"))
EntryId(s, e) == IF s = "prj" THEN "" ELSE KidText(e, "ID")

\* what is kept in a file under the declared names
ReadKw(root, decl) ==
    [s \in Sections |-> Map(Entries(root, s), LAMBDA e : [id |-> EntryId(s, e), v |-> [f \in decl[s] |-> SubText(e, "Fields", f)]])]
NormKw(kw) == [s \in Sections |-> Map(kw[s], LAMBDA r : [r EXCEPT !.v = [f \in DOMAIN r.v |-> T(r.v[f])]])]

SetField(e, f, x) ==
    IF T(x) # NULL
    THEN LET e1 == IF HasKid(e, "Fields") THEN e ELSE [e EXCEPT !.k = Append(@, Elem("Fields", NULL, <<>>))]
         IN [e1 EXCEPT !.k[Min(KidIdx(e1, "Fields"))] = SetText(@, f, x)]
    ELSE IF HasKid(e, "Fields") THEN [e EXCEPT !.k[Min(KidIdx(e, "Fields"))] = DropKids(@, {f})] ELSE e
RECURSIVE SetFields(_, _, _)
SetFields(e, v, fs) == IF fs = {} THEN e ELSE LET f == CHOOSE f \in fs : TRUE IN SetFields(SetField(e, f, v[f]), v, fs \ {f})
WriteEntry(e, v) == SetFields(e, v, DOMAIN v)

\* fields that nobody declared
OtherFields(e, names) == Bag(SelectSeq(KidsIn(e, "Fields"), LAMBDA c : c.g \notin names))
ById(es, s, id) == es[Min({i \in DOMAIN es : EntryId(s, es[i]) = id})]
\* kinds of elements that are kept in place when the project is saved, the others are written anew
InPlace == {"prj", "chs", "scs"}
SystemFields == [prj |-> ManagedPrjFields, scs |-> ManagedSceneFields, chs |-> ManagedChapterFields]
OtherKept(a, b, s, decl) ==
    LET ea == Entries(a, s) eb == Entries(b, s)
    IN \A i \in DOMAIN eb : (\E j \in DOMAIN ea : EntryId(s, ea[j]) = EntryId(s, eb[i])) =>
          OtherFields(eb[i], decl[s] \cup SystemFields[s]) = OtherFields(ById(ea, s, EntryId(s, eb[i])), decl[s] \cup SystemFields[s])
\* a name without a value leaves no element behind
NoHusks(b, s, decl) ==
    \A i \in DOMAIN Entries(b, s) : \A f \in decl[s] :
        Cardinality({j \in DOMAIN KidsIn(Entries(b, s)[i], "Fields") : KidsIn(Entries(b, s)[i], "Fields")[j].g = f})
            = IF SubText(Entries(b, s)[i], "Fields", f) = NULL THEN 0 ELSE 1

ResetKw(kw) == [s \in Sections |-> Map(kw[s], LAMBDA r : [r EXCEPT !.v = [f \in DOMAIN r.v |-> ""]])]
AnyKw(kw) == \E s \in Sections : \E i \in DOMAIN kw[s] : \E f \in DOMAIN kw[s][i].v : T(kw[s][i].v[f]) # NULL
DiffKw(a, b) ==
    {s \in Sections : Map(a[s], LAMBDA r : r.id) # Map(b[s], LAMBDA r : r.id)}
    \cup {s \in Sections : Map(a[s], LAMBDA r : r.id) = Map(b[s], LAMBDA r : r.id) /\ a[s] # b[s]}
=============================================================================
