---------------------------- MODULE JudgeConfig ----------------------------
(* Trace validation of sessions with a configuration and its INI file. *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, m, f
vars == <<t, l, m, f>>
Ev == Traces[t].ev[l]
Report(fs) == \A x \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o x)
Init == t \in 1..Len(Traces) /\ l = 1 /\ m = NoFile /\ f = NoFile
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.ev = e /\ l' = l + 1 /\ t' = t
Mem == [set |-> Ev.set, opt |-> Ev.opt]
Diff(a, b, pre) == (IF a.set # b.set THEN {pre \o ".settings"} ELSE {}) \cup (IF a.opt # b.opt THEN {pre \o ".options"} ELSE {})
\* a new session starts with its defaults, or the application sets everything
Start == IsEvent("start") /\ Report(Diff(Mem, [set |-> Ev.dset, opt |-> Ev.dopt], "start")) /\ m' = Mem /\ UNCHANGED f
SetAll == IsEvent("set") /\ Report(Diff(Mem, [set |-> Ev.dset, opt |-> Ev.dopt], "set")) /\ m' = Mem /\ UNCHANGED f
Change == IsEvent("change") /\ m' = Mem /\ UNCHANGED f
Hand == IsEvent("hand") /\ f' = [set |-> Ev.fset, opt |-> Ev.fopt] /\ UNCHANGED m
Write == IsEvent("write") /\ Report(IF Ev.out # "ok" THEN {"write.outcome"} ELSE
                                      Diff(Mem, m, "write.memory")
                                      \cup Diff([set |-> Ev.fset, opt |-> Ev.fopt], WriteFile(m), "write.file"))
         /\ f' = WriteFile(m) /\ UNCHANGED m
Read == IsEvent("read") /\ Report(IF Ev.out # "ok" THEN {"read.outcome"} ELSE Diff(Mem, ReadInto(m, f), "read"))
        /\ m' = (IF Ev.out = "ok" THEN Mem ELSE m) /\ UNCHANGED f
Next == Start \/ SetAll \/ Change \/ Hand \/ Write \/ Read
Spec == Init /\ [][Next]_vars
=============================================================================
