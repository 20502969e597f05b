---------------------------- MODULE JudgeTemplate ----------------------------
(***************************************************************************)
(* Trace validation of recorded template-based exports.                     *)
(* The file's text before and after, and that of its backup, are NULL if    *)
(* there is no such file.                                                   *)
(***************************************************************************)
EXTENDS Template, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l
vars == <<t, l>>

Ev == Traces[t].ev[l]
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o f)
P(pre, fs) == {pre \o f : f \in fs}

TextFaults(e) ==
    LET p == PartsOf(e.novel, e.f, e.tp, e.keep)
    IN (IF e.text = NULL THEN {"missing"} ELSE IF e.text = TextOf(e.novel, e.f, e.tp, e.keep) THEN {} ELSE {FirstFault(e.text, p)})
       \cup (IF e.before # NULL /\ e.bak # e.before THEN {"backup"} ELSE {})
\* an export that fails says so and leaves a document that was there before as it was
FailFaults(e) == (IF e.out = "Error" THEN {} ELSE {"unreported"}) \cup (IF e.before = NULL \/ e.text = e.before THEN {} ELSE {"lost"})

ExportFaults(e) ==
    (IF e.possible = "T" THEN (IF e.out # "ok" THEN {"outcome"} ELSE P("text.", TextFaults(e))) ELSE P("failed.", FailFaults(e)))
    \cup P("memory.", DiffProject(NormProject(e.after), NormProject(e.novel)))

Init == t \in 1..Len(Traces) /\ l = 1
Export == /\ l <= Len(Traces[t].ev) /\ Ev.ev = "export" /\ Report(P("template.", ExportFaults(Ev)))
          /\ l' = l + 1 /\ t' = t
Next == Export
Spec == Init /\ [][Next]_vars
=============================================================================
