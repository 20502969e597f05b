------------------------------ MODULE JudgeDoc ------------------------------
(***************************************************************************)
(* Trace validation of recorded exports.                                    *)
(* Every event is one document made from a project.                         *)
(***************************************************************************)
EXTENDS Sheet, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<t, l>>

Ev == Traces[t].ev[l]
Sys == SystemLocale(IF "env" \in DOMAIN Traces[t] THEN Traces[t].env ELSE "en_US.UTF-8")      \* where the program ran
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o f)
P(pre, fs) == {pre \o f : f \in fs}
InSet(l0) == {l0[i] : i \in DOMAIN l0}

Mime(kind) == IF kind \in SHEETS THEN "application/vnd.oasis.opendocument.spreadsheet" ELSE "application/vnd.oasis.opendocument.text"
PackageFaults(p, kind) ==
    (IF p.mime = Mime(kind) /\ p.root = Mime(kind) THEN {} ELSE {"type"})
    \cup (IF p.dups = 0 THEN {} ELSE {"duplicate"})
    \cup (IF InSet(p.listed) \subseteq InSet(p.names) /\ {"content.xml", "styles.xml", "meta.xml"} \subseteq InSet(p.names) THEN {} ELSE {"incomplete"})
    \cup (IF p.body = (IF kind \in SHEETS THEN "office:spreadsheet" ELSE "office:text") THEN {} ELSE {"body"})
    \cup (IF p.dated = "T" THEN {} ELSE {"date"})
MetaFaults(m, e) ==
    {f \in {"title", "author", "desc"} : m[f] # e[f]} \cup (IF m.lang # e.lang \/ m.country # e.country THEN {"language"} ELSE {})

ExportFaults(e) ==
    IF e.out # "ok" THEN {"outcome"}
    ELSE IF e.broken # "" THEN {"package.malformed"}
    ELSE P("package.", PackageFaults(e.pkg, e.kind)) \cup P("meta.", MetaFaults(e.pkg.meta, MetaOf(e.novel, Sys)))
         \cup (IF e.kind \in SHEETS THEN P("sheet.", SheetFaults(e.kind, e.novel, e.rows, Rows(e.kind, e.novel, e.name, e.dir)))
               ELSE P("doc.", DocFaults(e.blocks, Blocks(e.kind, e.novel, e.name))))
         \cup {IF e.stray[i] = "'" /\ e.kind = "" THEN "stray-apostrophe" ELSE "stray" : i \in DOMAIN e.stray}
         \* making a document changes nothing in the project but settles the languages
         \cup P("memory.", DiffProject(NormProject(e.after),
                                       NormProject([e.novel EXCEPT !.prj.lang = e.after.prj.lang, !.prj.country = e.after.prj.country,
                                                                   !.prj.languages = e.after.prj.languages])))

Init == t \in 1..Len(Traces) /\ l = 1
Export == /\ l <= Len(Traces[t].ev) /\ Ev.ev = "export" /\ Report(P("export" \o Ev.kind \o ".", ExportFaults(Ev)))
          /\ l' = l + 1 /\ t' = t
Next == Export
Spec == Init /\ [][Next]_vars
=============================================================================
