------------------------------ MODULE JudgeYw7 ------------------------------
(***************************************************************************)
(* Trace validation of recorded project histories: load / edit / save.     *)
(* Every trace is one behaviour; every event is judged completely, and each *)
(* violated clause is reported by name.                                     *)
(***************************************************************************)
EXTENDS Purge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l,
          base,      \* element tree the open project is based on (NoTree: a new project)
          mem,       \* the project in memory
          disk,      \* fingerprint of the file as it was last saved without an edit, "" if unknown
          clean      \* nothing has been edited since the file was loaded
vars == <<t, l, base, mem, disk, clean>>

Ev == Traces[t].ev[l]
Sys == SystemLocale(IF "env" \in DOMAIN Traces[t] THEN Traces[t].env ELSE "en_US.UTF-8")      \* where the program ran
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o f)
P(pre, fs) == {pre \o f : f \in fs}

Init == /\ t \in 1..Len(Traces) /\ l = 1
        /\ base = NoTree /\ mem = <<>> /\ disk = "" /\ clean = FALSE

IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.ev = e /\ l' = l + 1 /\ t' = t

\* a project file is read
Load ==
    /\ IsEvent("load")
    /\ IF Ev.out = "ok"
       THEN /\ Report(P("load.", DiffProject(NormProject(Ev.novel), NormProject(ReadProject(Ev.tree))))
                      \cup P("integrity.", IntegrityFaults(Ev.novel)))
            /\ mem' = Ev.novel
       ELSE Report({"load.outcome"}) /\ mem' = mem
    /\ base' = Ev.tree /\ clean' = TRUE
    /\ UNCHANGED disk

\* the author changes the project in memory (any well-formed change)
Edit ==
    /\ IsEvent("edit")
    /\ mem' = Ev.novel /\ clean' = FALSE
    /\ UNCHANGED <<base, disk>>

\* a project is built from scratch
New ==
    /\ IsEvent("new")
    /\ mem' = Ev.novel /\ base' = NoTree /\ clean' = FALSE
    /\ UNCHANGED disk

\* the project is saved
Save ==
    /\ IsEvent("save")
    /\ IF Ev.out = "ok"
       THEN LET back == NormProject(ReadProject(Ev.tree))
            IN Report(P("save.", DiffProject(back, AfterSave(base, mem, Sys)))
                      \cup P("enc.", EncodingFaults(Ev.tree, mem) \cup StartFaults(base, Ev.tree, mem))
                      \cup P("form.", IF "form" \in DOMAIN Ev THEN FormFaults(Ev.form) ELSE {})
                      \cup P("frame.", IF base = NoTree THEN {} ELSE FrameFaults(base, Ev.tree, mem))
                      \cup P("integrity.", IntegrityFaults(back) \cup (IF VarIdsUnique(Ev.tree) THEN {} ELSE {"variable-id"})
                                             \cup (IF NoDangling(Ev.tree) THEN {} ELSE {"dangling"}))
                      \cup (IF StaleCounts(Ev.tree) THEN {"stalecounts"} ELSE {})
                      \cup (IF clean /\ disk # "" /\ disk # Ev.hash THEN {"stable"} ELSE {}))
       ELSE Report({"save.outcome"})
    \* saving itself changes nothing in memory but settles the languages
    /\ LET now == [mem EXCEPT !.prj.lang = Ev.novel.prj.lang, !.prj.country = Ev.novel.prj.country,
                              !.prj.languages = Ev.novel.prj.languages]
       IN /\ Report(P("memory.", DiffProject(NormProject(Ev.novel), NormProject(Shown(now)))))
          /\ mem' = now
    /\ base' = Ev.tree /\ disk' = IF clean THEN Ev.hash ELSE ""
    /\ UNCHANGED clean

\* the custom variables are reset
Reset ==
    /\ IsEvent("reset")
    /\ Report(P("reset.", DiffProject(NormProject(Ev.novel), NormProject(Shown(ResetCustom(mem)))))
              \cup (IF Ev.out # "ok" THEN {"reset.outcome"} ELSE {})
              \cup (IF Ev.ret = "F" /\ HasCustom(mem) THEN {"reset.concealed"} ELSE {})
              \cup (IF Ev.ret = "T" /\ ~HasCustom(mem) /\ (base = NoTree \/ ~TreeHasCustom(base)) THEN {"reset.pretended"} ELSE {}))
    /\ mem' = ResetCustom(Ev.novel) /\ clean' = FALSE
    /\ UNCHANGED <<base, disk>>
\* nothing of it is left in the file
Cleared ==
    /\ IsEvent("cleared")
    /\ Report(IF TreeHasCustom(base) THEN {"reset.left"} ELSE {})
    /\ UNCHANGED <<base, mem, disk, clean>>
\* the language markup is removed
RemoveMarks ==
    /\ IsEvent("nolang")
    /\ Report(P("nolang.", DiffProject(NormProject(Ev.novel), NormProject(Shown(RemoveLanguages(mem)))))
              \cup (IF Ev.out # "ok" THEN {"nolang.outcome"} ELSE {})
              \cup (IF Ev.ret # Bool(HasMarks(mem)) THEN {"nolang.report"} ELSE {}))
    /\ mem' = RemoveLanguages(mem) /\ clean' = FALSE
    /\ UNCHANGED <<base, disk>>

Next == Reset \/ Cleared \/ RemoveMarks \/ Load \/ Edit \/ New \/ Save
Spec == Init /\ [][Next]_vars
=============================================================================
