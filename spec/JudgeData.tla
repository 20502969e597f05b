------------------------------ MODULE JudgeData ------------------------------
(* Trace validation of recorded histories of a project and its data files. *)
EXTENDS Data, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, mem, files
vars == <<t, l, mem, files>>
Ev == Traces[t].ev[l]
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " data." \o f)
Three == {Ev.name \o FILES[i] : i \in 1..3}
Others == {Ev.changed[i] : i \in DOMAIN Ev.changed} \ Three
Init == t \in 1..Len(Traces) /\ l = 1 /\ mem = <<>> /\ files = NoFiles
Is(e) == l <= Len(Traces[t].ev) /\ Ev.ev = e /\ l' = l + 1 /\ t' = t
\* the project is made, changed, read, or saved: nothing happens to the data files
Project == /\ Is("project") /\ mem' = Ev.novel /\ files' = Ev.trees
           /\ Report((IF Ev.trees # files THEN {"touched"} ELSE {}) \cup (IF Ev.out # "ok" THEN {"project"} ELSE {}))
Kept(a, b) == DiffProject(NormProject([a EXCEPT !.prj.lang = b.prj.lang, !.prj.country = b.prj.country, !.prj.languages = b.prj.languages]), NormProject(b))
Make == /\ Is("make") /\ files' = Ev.trees /\ mem' = mem
        /\ Report((IF Ev.out = "ok" THEN DataFaults(Ev.trees, mem) \cup (IF Ev.head # "T" THEN {"header"} ELSE {})
                   ELSE IF ~Ev.hit THEN {"outcome"} ELSE {})
                  \cup (IF Others # {} THEN {"writes"} ELSE {})
                  \cup {"memory." \o x : x \in Kept(Ev.novel, mem)})
Next == Project \/ Make
Spec == Init /\ [][Next]_vars
=============================================================================
