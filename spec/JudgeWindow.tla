---------------------------- MODULE JudgeWindow ----------------------------
(* Trace validation of recorded sessions with the main window. *)
EXTENDS Window, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, w
vars == <<t, l, w>>
Ev == Traces[t].ev[l]
Report(fs) == \A x \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " window." \o x)
Files == [x \in {Ev.files[i].n : i \in DOMAIN Ev.files} |-> LET i == CHOOSE i \in DOMAIN Ev.files : Ev.files[i].n = x IN Ev.files[i]]
Diff(a, b) == {f \in DOMAIN a : a[f] # b[f]}
Init == t \in 1..Len(Traces) /\ l = 1 /\ w = Start(Traces[t].last)
\* what is expected, given what is seen where the specification leaves it open
Expected(e) ==
    CASE e.k \in {"open", "fault"} ->
            LET name == Picked(Files, e.arg, e.answer)
                odd == name \in DOMAIN Files /\ Files[name].c = "odd"
                ff == IF odd THEN [Files EXCEPT ![name].c = IF e.ret = "T" THEN "good" ELSE "bad", ![name].title = e.title, ![name].author = e.author] ELSE Files
                \* a disturbed reading may still succeed, e.g. at the second attempt
                x == Opened(w, ff, e.arg, e.answer, e.k = "open" \/ ~e.hit \/ e.ret = "T")
            IN IF x.colour = "red" /\ x.text = "?" THEN [x EXCEPT !.text = e.win.text] ELSE x
      [] e.k = "close" -> Closed(w)
      [] e.k = "restore" -> Restored(w)
      [] e.k = "tell" -> Told(w, e.arg)
      [] e.k = "status" -> Status(w, e.arg)
      [] OTHER -> w
Faults(e) ==
    LET x == Expected(e)
        name == Picked(Files, e.arg, e.answer)
        opening == e.k \in {"open", "fault"}
        failed == opening /\ name # "" /\ x.open = ""
        \* the lasting text is not seen before it is restored
        seen == [e.win EXCEPT !.last = IF failed THEN x.last ELSE e.win.last] @@ [kept |-> x.kept]
    IN IF e.out # "ok" THEN {"crash"}
       ELSE Diff(x, seen)
            \cup (IF opening /\ (e.ret = "T") # (x.open # "" /\ name # "") THEN {"answer"} ELSE {})
            \cup (IF opening /\ e.asked # (IF Asks(Files, e.arg) THEN 1 ELSE 0) THEN {"dialog"} ELSE {})
            \cup (IF failed /\ e.win.text = "" THEN {"silent"} ELSE {})
            \cup (IF failed /\ name \in DOMAIN Files /\ Files[name].c = "locked" /\ FindFrom(e.win.text, "seems to be open", 1) = 0 THEN {"lock"} ELSE {})
            \* the novel at hand is the open project's
            \cup (IF x.open # "" /\ e.same # "T" THEN {"novel"} ELSE {})
            \cup (IF opening /\ e.ret = "T" /\ (T(e.title) # T(e.told[1]) \/ T(e.author) # T(e.told[2])) THEN {"mixed"} ELSE {})
            \* only the open project is ever written
            \cup (IF \E i \in DOMAIN e.changed : e.k # "save" \/ x.open = "" \/ Files[x.open].c = "locked" \/ e.changed[i] \notin {x.open, x.open \o ".bak"} THEN {"writes"} ELSE {})
            \cup (IF e.k = "save" /\ x.open # "" /\ Files[x.open].c # "locked" /\ e.saved # "T" THEN {"unsaved"} ELSE {})
Step == /\ l <= Len(Traces[t].ev) /\ Report(Faults(Ev)) /\ l' = l + 1 /\ t' = t
        /\ w' = IF Ev.out = "ok" THEN [Ev.win EXCEPT !.last = Ev.win.last] @@ [kept |-> Expected(Ev).kept] ELSE w
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
