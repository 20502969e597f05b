----------------------------- MODULE JudgeCustom -----------------------------
(* Recorded histories of projects whose application keeps custom fields. *)
EXTENDS Custom, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, base, mem, novel
vars == <<t, l, base, mem, novel>>
Ev == Traces[t].ev[l]
Sys == SystemLocale("en_US.UTF-8")
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o f)
P(pre, fs) == {pre \o f : f \in fs}
SetOf(q) == {q[i] : i \in DOMAIN q}
Decl == [s \in Sections |-> SetOf(Traces[t].last.decl[s])]
All == [s \in Sections |-> Decl[s] \cup Own[s]]
\* logged values: records with one component per declared name (an empty set of names is logged as an empty sequence)
Kw(x, d) == [s \in Sections |-> Map(x[s], LAMBDA r : [id |-> r.id, v |-> [f \in d[s] |-> r.v[f]]])]
OnlyExtra(kw, d) == [s \in Sections |-> Map(kw[s], LAMBDA r : [r EXCEPT !.v = [f \in d[s] \ Own[s] |-> r.v[f]]])]

Init == t \in 1..Len(Traces) /\ l = 1 /\ base = NoTree /\ mem = <<>> /\ novel = <<>>
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.ev = e /\ l' = l + 1 /\ t' = t

Load == /\ IsEvent("load")
        /\ IF Ev.out # "ok" THEN Report({"load.outcome"})
           ELSE Report(P("load.", DiffKw(NormKw(Kw(Ev.kw, All)), ReadKw(Ev.tree, All)))
                       \cup P("load.", DiffProject(NormProject(Ev.novel), NormProject(ReadProject(Ev.tree)))))
        /\ base' = Ev.tree /\ mem' = Kw(Ev.kw, All) /\ novel' = Ev.novel
New  == /\ IsEvent("new") /\ base' = NoTree /\ mem' = Kw(Ev.kw, All) /\ novel' = Ev.novel
Edit == /\ IsEvent("edit") /\ mem' = Kw(Ev.kw, All) /\ novel' = Ev.novel /\ UNCHANGED base
Save == /\ IsEvent("save")
        /\ IF Ev.out # "ok" THEN Report({"save.outcome"})
           ELSE LET back == ReadKw(Ev.tree, Decl) IN
                Report(P("save.", DiffKw(OnlyExtra(back, Decl), NormKw(OnlyExtra(mem, Decl))))
                       \cup (IF base = NoTree THEN {} ELSE {"save.other." \o s : s \in {s \in InPlace : ~OtherKept(base, Ev.tree, s, Decl)}})
                       \cup {"save.husk." \o s : s \in {s \in Sections : ~NoHusks(Ev.tree, s, [Decl EXCEPT ![s] = @ \ Own[s]])}}
                       \cup P("save.", DiffProject(NormProject(ReadProject(Ev.tree)), AfterSave(base, novel, Sys))))
        /\ Report(P("memory.", DiffKw(NormKw(OnlyExtra(Kw(Ev.kw, All), Decl)), NormKw(OnlyExtra(mem, Decl)))))
        /\ base' = Ev.tree /\ mem' = Kw(Ev.kw, All) /\ novel' = [novel EXCEPT !.prj.lang = Ev.novel.prj.lang, !.prj.country = Ev.novel.prj.country, !.prj.languages = Ev.novel.prj.languages]
Reset == /\ IsEvent("reset")
         /\ Report((IF Ev.out # "ok" THEN {"reset.outcome"} ELSE {})
                   \cup P("reset.", DiffKw(NormKw(Kw(Ev.kw, All)), NormKw(ResetKw(mem))))
                   \cup P("reset.", DiffProject(NormProject(Ev.novel), NormProject(Shown(ResetCustom(novel)))))
                   \cup (IF Ev.ret = "F" /\ (AnyKw(OnlyExtra(mem, Decl)) \/ HasCustom(novel)) THEN {"reset.concealed"} ELSE {})
                   \cup (IF Ev.ret = "T" /\ ~AnyKw(mem) /\ ~HasCustom(novel) THEN {"reset.pretended"} ELSE {}))
         /\ mem' = Kw(Ev.kw, All) /\ novel' = ResetCustom(Ev.novel) /\ UNCHANGED base
\* after a reset and a save nothing is left under the declared names
Cleared == /\ IsEvent("cleared")
           /\ Report({"reset.left." \o s : s \in {s \in Sections : \E i \in DOMAIN ReadKw(base, All)[s] : \E f \in All[s] :
                                                                       ReadKw(base, All)[s][i].v[f] # NULL}})
           /\ UNCHANGED <<base, mem, novel>>
Next == Load \/ New \/ Edit \/ Save \/ Reset \/ Cleared
Spec == Init /\ [][Next]_vars
=============================================================================
