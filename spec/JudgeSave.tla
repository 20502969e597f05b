----------------------------- MODULE JudgeSave -----------------------------
(***************************************************************************)
(* Validation of recorded saves under faults, and of document production.   *)
(* A snapshot names the version of what is on disk: "none", "bad" (not a    *)
(* complete project), or the label of the complete version.                 *)
(***************************************************************************)
EXTENDS Base, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, main, bak
vars == <<t, l, main, bak>>
Ev == Traces[t].ev[l]
Report(fs) == \A x \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o x)
Init == t \in 1..Len(Traces) /\ l = 1 /\ main = "none" /\ bak = "none"
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.ev = e /\ l' = l + 1 /\ t' = t
Complete(v) == v \notin {"none", "bad"}
If(c, name) == IF c THEN {name} ELSE {}

\* the situation a history starts from
Start == IsEvent("start") /\ main' = Ev.main /\ bak' = Ev.bak
\* one attempt to save version Ev.want, possibly with faults
Save ==
    /\ IsEvent("save")
    /\ LET m == Ev.main b == Ev.bak failed == Ev.out \notin {"ok", "crash"}
       IN Report(If(Complete(main) /\ ~(m \in {main, Ev.want} \/ b \in {main, Ev.want}), "lost")
                 \cup If(main = "none" /\ Complete(bak) /\ Ev.out # "ok" /\ ~(b = bak \/ m \in {bak, Ev.want}), "lost-backup")
                 \cup If(Ev.out = "ok" /\ m # Ev.want, "false-success")
                 \cup If(Ev.out = "ok" /\ Complete(main) /\ b # main, "no-backup")
                 \cup If(Ev.out = "hang", "hang")
                 \cup If(failed /\ ~Ev.persistent /\ Complete(main) /\ m \notin {main, Ev.want}, "not-restored")
                 \cup If(Ev.fault = "none" /\ ~Ev.locked /\ Ev.out # "ok" /\ (Complete(main) \/ ~Ev.needs), "failure-without-fault")
                 \cup If(Ev.locked /\ (Ev.out = "ok" \/ m # main \/ b # bak), "wrote-locked")
                 \cup If(Ev.told = "success" /\ m # Ev.want, "false-report")
                 \cup If(Ev.told = "failure" /\ Ev.fault = "none" /\ ~Ev.locked /\ (Complete(main) \/ ~Ev.needs), "false-alarm")
                 \cup If(Ev.told = "nothing", "no-report")
                 \cup If(Ev.debris # <<>>, "debris")
                 \cup If(Ev.project # "same", "project-touched")
                 \cup If(Ev.cwd # "same", "working-directory"))
    /\ main' = Ev.main /\ bak' = Ev.bak
Next == Start \/ Save
Spec == Init /\ [][Next]_vars
=============================================================================
