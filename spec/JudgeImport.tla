----------------------------- MODULE JudgeImport -----------------------------
(***************************************************************************)
(* Trace validation of recorded imports.                                    *)
(*   import  a document has been written back to a project file, or a new   *)
(*           project file has been made from it                             *)
(*   same    a document has been exported and written back without an edit  *)
(***************************************************************************)
EXTENDS Import, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Sys == [lang |-> "en", country |-> "US"]

VARIABLES t, l
vars == <<t, l>>

Ev == Traces[t].ev[l]
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o f)
P(pre, fs) == {pre \o f : f \in fs}

\* blanks at the ends of a text do not count; a rating of 1 means that there is none
Soft(r) == [f \in DOMAIN r |-> IF f \in {"tags", "chars", "locs", "items", "languages", "scs"} THEN r[f]
                               ELSE IF r[f] = NULL THEN NULL ELSE IF f \in {"title", "desc", "content"} THEN T(Strip(r[f])) ELSE T(RStrip(r[f]))]
SoftRating(s) == [s EXCEPT !.f1 = IF s.f1 = "1" THEN NULL ELSE s.f1, !.f2 = IF s.f2 = "1" THEN NULL ELSE s.f2,
                           !.f3 = IF s.f3 = "1" THEN NULL ELSE s.f3, !.f4 = IF s.f4 = "1" THEN NULL ELSE s.f4]
\* the texts of these scenes are compared by their meaning
SoftProject(n, txtIds) ==
    [prj |-> [Soft(n.prj) EXCEPT !.languages = NOLST],
     crs |-> Map(n.crs, Soft), lcs |-> Map(n.lcs, Soft), its |-> Map(n.its, Soft), pns |-> Map(n.pns, Soft), chs |-> Map(n.chs, Soft),
     scs |-> Map(n.scs, LAMBDA s : SoftRating(Soft([s EXCEPT !.content = IF s.id \in txtIds THEN NULL ELSE s.content])))]

\* a first line that holds nothing but one blank gets lost when a project is saved
RECURSIVE DropBlank(_)
DropBlank(ls) == IF Len(ls) > 1 /\ ls[1] = [q |-> FALSE, r |-> <<[t |-> "t", x |-> " ", f |-> <<>>]>>] THEN DropBlank(Tail(ls)) ELSE ls
RECURSIVE TrimFront(_)
TrimFront(ls) == IF ls # <<>> /\ TrimRuns(ls[1].r) = <<>> /\ ~ls[1].q THEN TrimFront(Tail(ls)) ELSE ls
RECURSIVE LTrimLine(_)
LTrimLine(ls) == IF ls = <<>> \/ ls[1].q \/ ls[1].r = <<>> THEN ls
                 ELSE LET r == ls[1].r[1]
                      IN IF r.t # "t" \/ r.f # <<>> THEN ls
                         ELSE IF LStrip(r.x) = "" THEN LTrimLine([ls EXCEPT ![1].r = Tail(ls[1].r)]) ELSE [ls EXCEPT ![1].r[1].x = LStrip(r.x)]
\* the proof document keeps no blanks at the beginning of a scene
Trimmed(ls) == Map(TrimLines(ls), LAMBDA ln : [q |-> ln.q, r |-> Map(ln.r, LAMBDA r : [t |-> r.t, x |-> r.x, f |-> r.f])])
Requoted(ls) == IF ls = <<>> \/ ls[1].q THEN ls ELSE <<Quoted(ls[1].r)>> \o Tail(ls)
TextOf(ls, kind) == IF kind = "_proof" THEN Requoted(LTrimLine(TrimFront(Trimmed(ls)))) ELSE DropBlank(Trimmed(ls))

LangSet(n) == Range2(LST(n.prj.languages))
LangsInDoc(bs) == {SubSeq(f, 6, Len(f)) : f \in {g \in UNION {UNION {Range2(bs[i].r[j].f) : j \in DOMAIN bs[i].r} : i \in {k \in DOMAIN bs : LevelOf(bs[k]) \in {"h1", "h2"} \/ IsDivider(bs[k])}} : StartsWith(g, "lang=")}}
\* the text of scenes that are gone may have brought its languages
LangsAnywhere(bs) == {SubSeq(f, 6, Len(f)) : f \in {g \in UNION {UNION {Range2(bs[i].r[j].f) : j \in DOMAIN bs[i].r} : i \in DOMAIN bs} : StartsWith(g, "lang=")}}
Gone(n, bs) == \E i \in DOMAIN bs : HasSub(PlainOf(bs[i]), "[ScID") /\ ~Known(n.scs, NumIn(PlainOf(bs[i])))
\* every tag is opened and closed in turn
RECURSIVE Turns(_, _, _, _)
Turns(x, open, close, p) ==
    LET a == FindFrom(x, open, p)
        c == FindFrom(x, close, p)
    IN IF a = 0 THEN c = 0 ELSE c > a /\ (LET b == FindFrom(x, open, a + 1) IN (b = 0 \/ b > c) /\ Turns(x, open, close, c + 1))
Paired(x, g) == T(x) = NULL \/ Turns(x, "[" \o g \o "]", "[/" \o g \o "]", 1)
ImportFaults(e) ==
    LET new == e.before = NoTree
        n == IF new THEN EmptyProject ELSE ReadProject(e.before)
        x == Imported(e.kind, n, e)
    IN IF ~x.ok THEN (IF e.out = "ok" THEN {"outcome"} ELSE {})
       ELSE IF e.out # "ok" THEN {"outcome"}
       ELSE LET ids == DOMAIN x.txt
                filled == [x.n EXCEPT !.scs = Map(x.n.scs, LAMBDA s : IF s.id \in ids THEN [s EXCEPT !.content = NULL] ELSE s)]
                act == NormProject(ReadProject(e.after))
                langs == LST(act.prj.languages)
                exp0 == AfterSave(e.before, filled, Sys)
                \* a language used nowhere but in a heading or a line that only divides may be declared or not
                more == LangSet(act) \ LangSet(exp0)
                exp == IF new /\ more # {} /\ more \subseteq LangsInDoc(e.blocks) THEN AfterSave(e.before, [filled EXCEPT !.prj.languages = act.prj.languages], Sys) ELSE exp0
                known == {act.scs[i].id : i \in DOMAIN act.scs}
                AText(id) == TextOf(NF(ById(act.scs, id).content, langs), e.kind)
            IN P("project.", DiffProject(SoftProject(act, ids), SoftProject(exp, ids)))
               \cup {"text" : id \in {i \in ids \cap known : AText(i) # TextOf(x.txt[i], e.kind)}}
               \cup {"unpaired" : id \in {i \in ids \cap known : \E g \in {"i", "b"} \cup {"lang=" \o c : c \in Range2(langs)} : ~Paired(ById(act.scs, i).content, g)}}
               \cup (IF LangSet(exp) \subseteq LangSet(act) /\ LangSet(act) \subseteq LangSet(exp) \cup Range2(LST(LangsOfScenes(act.scs)))
                      \cup (IF e.kind = "_proof" /\ Gone(n, e.blocks) THEN LangsAnywhere(e.blocks) ELSE {}) /\ NoDup(langs) THEN {} ELSE {"languages"})
               \cup (IF e.told = Bool(x.split /\ ~new) THEN {} ELSE {"told"})
               \cup (IF new THEN {} ELSE P("frame.", FrameFaults(e.before, e.after, filled)))
               \cup P("integrity.", IntegrityFaults(act) \cup (IF VarIdsUnique(e.after) THEN {} ELSE {"variable-id"}))
               \cup (IF StaleCounts(e.after) THEN {"stalecounts"} ELSE {})

\* writing back what has just been exported
RoundTrip(kind, before, after) ==
    LET a == NormProject(ReadProject(before))
        b == NormProject(ReadProject(after))
        la == LST(LangsOf2(a))
        lb == LST(b.prj.languages)
        carried == IF kind \in SECTIONED \cup {"_proof"} THEN {a.scs[i].id : i \in DOMAIN a.scs} ELSE {}
        Plain(n) == [n EXCEPT !.prj.lang = NULL, !.prj.country = NULL]
        Txt(n, id, ls) == TextOf(NF(ById(n.scs, id).content, ls), kind)
    IN P("project.", DiffProject(SoftProject(Plain(a), carried), SoftProject(Plain(b), carried)))
       \cup {"text" : id \in {i \in carried : Known(b.scs, i) /\ Txt(a, i, la) # Txt(b, i, lb)}}
       \cup (IF LangSet(a) \subseteq LangSet(b) /\ LangSet(b) \subseteq LangSet(a) \cup Range2(la) /\ NoDup(lb) THEN {} ELSE {"languages"})
SameFaults(e) ==
    IF e.out # "ok" THEN {"outcome"}
    ELSE RoundTrip(e.kind, e.before, e.after)
         \cup (IF e.told = "F" THEN {} ELSE {"told"})
         \* once more: still the same
         \cup (IF e.again # "" THEN {"again.outcome"} ELSE P("again.", RoundTrip(e.kind, e.after, e.third)))

Init == t \in 1..Len(Traces) /\ l = 1
IsEvent(k) == l <= Len(Traces[t].ev) /\ Ev.ev = k /\ l' = l + 1 /\ t' = t
ImportDoc == IsEvent("import") /\ Report(P("import" \o Ev.kind \o ".", ImportFaults(Ev)))
SameDoc == IsEvent("same") /\ Report(P("same" \o Ev.kind \o ".", SameFaults(Ev)))
Next == ImportDoc \/ SameDoc
Spec == Init /\ [][Next]_vars
=============================================================================
