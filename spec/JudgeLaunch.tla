----------------------------- MODULE JudgeLaunch -----------------------------
(***************************************************************************)
(* Trace validation of recorded attempts to open documents.                 *)
(*   started  what was started      strays  files that have come into being *)
(***************************************************************************)
EXTENDS Launch, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " launch." \o f)
LaunchFaults(e) ==
    LET exp == Started(e.has, e.path)
    IN (IF e.out # "ok" THEN {"outcome"} ELSE {})
       \cup (IF e.started = exp THEN {}
             ELSE IF e.started = <<>> THEN {"nothing"}
             ELSE IF Len(e.started) > 1 THEN {"twice"}
             ELSE IF exp # <<>> /\ e.started[1].way = exp[1].way THEN {"document"} ELSE {"way"})
       \cup (IF e.strays # <<>> THEN {"executed"} ELSE {})
Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev) /\ Ev.ev = "open" /\ Report(LaunchFaults(Ev))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
