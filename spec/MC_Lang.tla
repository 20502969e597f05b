------------------------------- MODULE MC_Lang -------------------------------
(***************************************************************************)
(* The life of a project's languages: the document language and the         *)
(* languages used in its texts, in the file and in memory, on any system.   *)
(*   root   the project file (only what concerns languages)                 *)
(*   mem    lang, country, languages of the open project                    *)
(*   text   the text of its only scene                                      *)
(***************************************************************************)
EXTENDS Yw7, Json, IOUtils
CONSTANTS MaxSteps
VARIABLES root, before, mem, text, sys, n, act
vars == <<root, before, mem, text, sys, n, act>>

Var(id, title, desc) == Elem("PROJECTVAR", NULL, <<Leaf("ID", id), Leaf("Title", title), Leaf("Desc", desc), Leaf("Tags", "0")>>)
Root(fields, vs) == Elem("YWRITER7", NULL, <<Elem("PROJECT", NULL, <<Leaf("Ver", "7")>> \o fields), Elem("PROJECTVARS", NULL, vs)>>)
Number(vs) == [i \in DOMAIN vs |-> [vs[i] EXCEPT !.k[1].x = ToString(2 * i)]]

LangVars == {<<>>} \cup {<<Var("", "Language", x)>> : x \in {NULL, "de", "english"}}
CountryVars == {<<>>} \cup {<<Var("", "Country", x)>> : x \in {"DE", "USA"}}
UseVars == {<<>>, <<Var("", "lang=de-DE", "d")>>, <<Var("", "lang=de-DE", "d"), Var("", "/lang=de-DE", "e")>>, <<Var("", "lang=fr", "d"), Var("", "My", "x")>>,
            <<Var("", "lang=de-DE", "d"), Var("", "lang=de-DE", "d")>>, <<Var("", "lang=a=b", "d")>>}
Legacy == {<<>>, <<Elem("Fields", NULL, <<Leaf("Field_LanguageCode", "fr"), Leaf("Field_CountryCode", "CA")>>)>>}
Roots == {Root(f, Number(a \o b \o c)) : f \in Legacy, a \in LangVars, b \in CountryVars, c \in UseVars}
         \cup {Elem("YWRITER7", NULL, <<Elem("PROJECT", NULL, <<Leaf("Ver", "7")>>)>>)}
Systems == {"en_US.UTF-8", "de_AT", "C", "", "fil_PH.UTF-8"}
Texts == {"x", "[lang=de-DE]x[/lang=de-DE]", "x[lang=fr]y[/lang=fr]z[lang=en-GB]y[/lang=en-GB]", "[lang=en-GB]"}
Codes == {<<"de", "CH">>, <<"pt", NULL>>, <<NULL, NULL>>, <<NULL, "BR">>, <<"zxx", "none">>, <<"e", "US">>}

Novel2(m, x) == [prj |-> [f \in {"title", "desc", "author", "bio", "f1", "f2", "f3", "f4", "wcs", "wt"} |-> NULL]
                         @@ [lang |-> m.lang, country |-> m.country, languages |-> m.languages],
                 scs |-> <<[id |-> "1", content |-> x]>>, chs |-> <<>>]
Mem(r) == LET p == ReadPrj(r) IN [lang |-> p.lang, country |-> p.country, languages |-> p.languages]

\* how saving lays the languages down
Wrote(r, m, x, s) ==
    LET langs == LangsOf2(Novel2(m, x))
        loc == LocaleOf(m.lang, m.country, SystemLocale(s).lang, SystemLocale(s).country)
        any == langs # <<>> \/ T(m.lang) # NULL \/ T(m.country) # NULL
        old == KidsIn(r, "PROJECTVARS")
        settled == Map(old, LAMBDA v : IF VarTitle(v) = "Language" THEN SetText(v, "Desc", loc.l) ELSE IF VarTitle(v) = "Country" THEN SetText(v, "Desc", loc.c) ELSE v)
        has(title) == \E i \in DOMAIN old : VarTitle(old[i]) = title
        declared == Map(SelectSeq(old, IsLangVar), LangOf)
        missing == SelectSeq(langs, LAMBDA y : ~InSeq(y, declared))
        add(vs, title, desc) == Append(vs, Var(FreshId({KidText(vs[i], "ID") : i \in DOMAIN vs}), title, desc))
        a == IF has("Language") THEN settled ELSE add(settled, "Language", loc.l)
        b == IF has("Country") THEN a ELSE add(a, "Country", loc.c)
        c == FoldLeft(LAMBDA vs, y : add(add(vs, "lang=" \o y, "open"), "/lang=" \o y, "close"), b, missing)
        bare == IF SubHas(Kid(r, "PROJECT"), "Fields", "Field_LanguageCode")
                THEN [r EXCEPT !.k[1] = SetText(DropKids(@, {"Fields"}), "Fields", NULL)] ELSE r
    IN IF ~any THEN bare
       ELSE IF HasKid(bare, "PROJECTVARS") THEN [bare EXCEPT !.k[Min(KidIdx(bare, "PROJECTVARS"))].k = c]
       ELSE [bare EXCEPT !.k = Append(@, Elem("PROJECTVARS", NULL, c))]

Init == /\ root \in Roots /\ before = root /\ mem = Mem(root) /\ text \in Texts /\ sys \in Systems /\ n = 0 /\ act = "load"
Save == /\ root' = Wrote(root, mem, text, sys) /\ before' = root
        /\ mem' = LET langs == LangsOf2(Novel2(mem, text)) loc == LocaleOf(mem.lang, mem.country, SystemLocale(sys).lang, SystemLocale(sys).country)
                  IN IF langs # <<>> \/ T(mem.lang) # NULL \/ T(mem.country) # NULL
                     THEN [lang |-> loc.l, country |-> loc.c, languages |-> langs] ELSE [mem EXCEPT !.languages = langs]
        /\ act' = "save" /\ UNCHANGED <<text, sys>>
Load == mem' = Mem(root) /\ act' = "load" /\ UNCHANGED <<root, before, text, sys>>
\* a document is made: it is written for the settled language
Export == /\ mem' = LET loc == LocaleOf(mem.lang, mem.country, SystemLocale(sys).lang, SystemLocale(sys).country) IN [mem EXCEPT !.lang = loc.l, !.country = loc.c]
          /\ act' = "export" /\ UNCHANGED <<root, before, text, sys>>
SetLocale == /\ \E c \in Codes : mem' = [mem EXCEPT !.lang = c[1], !.country = c[2]]
             /\ act' = "edit" /\ UNCHANGED <<root, before, text, sys>>
SetText2 == text' \in Texts /\ act' = "edit" /\ UNCHANGED <<root, before, mem, sys>>
Forget == mem' = [mem EXCEPT !.languages = NOLST] /\ act' = "edit" /\ UNCHANGED <<root, before, text, sys>>
Move == sys' \in {"de_AT", "C"} /\ act' = "edit" /\ UNCHANGED <<root, before, mem, text>>     \* on another computer
Next == n < MaxSteps /\ n' = n + 1 /\ (Save \/ Load \/ Export \/ SetLocale \/ SetText2 \/ Forget \/ Move)
Spec == Init /\ [][Next]_vars

Saved == act = "save"
Settled == T(mem.lang) # NULL
Good(l, c) == (Len(l) = 2 /\ c # NULL /\ Len(c) = 2) \/ (l = "zxx" /\ c = "none")
\* the file has what the specification of saving says
Refined == Saved => LET now == ReadPrj(root) want == SavedPrj(before, Novel2(mem, text).prj, LangsOf2(Novel2(mem, text)), SystemLocale(sys))
                    IN T(now.lang) = T(want.lang) /\ T(now.country) = T(want.country) /\ LST(now.languages) = LST(want.languages)
\* settled languages are plausible, and a document's language always is
Plausible == act \in {"save", "export"} /\ Settled => Good(mem.lang, mem.country)
Written == act = "export" => Settled
\* every language of the text is declared, and none twice but those that were before
Declared == Saved => LET now == LST(ReadPrj(root).languages) old == LST(ReadPrj(before).languages)
                     IN /\ \A x \in Range2(LangsOfText(text)) : InSeq(x, now)
                        /\ \A x \in Range2(now) : Cardinality({i \in DOMAIN now : now[i] = x}) <= Max({1, Cardinality({i \in DOMAIN old : old[i] = x})})
Frame == Saved => FrameFaults(before, root, [scs |-> <<>>, chs |-> <<>>]) = {} /\ VarIdsUnique(root)
\* settling is final: nothing changes when it is done again, wherever
Final == Saved /\ Settled => \A place \in {sys, "xx_YY"} : Wrote(root, Mem(root), text, place) = root
-----------------------------------------------------------------------------
Cases == {[root |-> r, text |-> x, sys |-> s, lang |-> c[1], country |-> c[2], forget |-> f] :
             r \in Roots, x \in Texts, s \in Systems, c \in Codes \cup {<<"", "">>}, f \in BOOLEAN}     \* "" "": as loaded
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
