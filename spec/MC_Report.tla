----------------------------- MODULE MC_Report -----------------------------
(* Everything a program can tell or ask through any of the interfaces, in any order. *)
EXTENDS Report, Json, IOUtils
CONSTANTS MaxSteps, MaxReplay
VARIABLES s, n, act, shown, was
vars == <<s, n, act, shown, was>>
A(k, arg, answer) == [k |-> k, arg |-> arg, answer |-> answer]
Actions == {A("how", m, "") : m \in {"done", "! no ! way ", "!x", "a!b"}} \cup {A("what", m, "") : m \in {"In: a", "!In"}}
           \cup {A("warn", "!split", ""), A("error", "!e", ""), A("info", "i!", ""), A("status", "12 words", "")}
           \cup {A("ask", "Overwrite?", x) : x \in {"T", "F"}} \cup {A("resize", "300x200+1+2", ""), A("quit", "", ""), A("again", "", ""), A("button", "", ""), A("press", "", "")}
Fits(ss, a) == CASE a.k \in {"error", "info", "status", "resize", "quit"} -> ss.ui = "main" /\ ~ss.gone
                 [] a.k = "again" -> ss.ui = "main" /\ ss.gone
                 [] a.k \in {"button", "press"} -> ss.ui = "window" /\ (a.k = "button") = (ss.button = 0)
                 [] OTHER -> ~ss.gone
Init == \E u \in UIs : s = Begin(u, "") /\ n = 0 /\ act = A("start", "", "") /\ shown = <<>> /\ was = s
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E a \in Actions : Fits(s, a) /\ act' = a /\ s' = After(s, a) /\ shown' = Appears(s, a) /\ was' = s
Spec == Init /\ [][Next]_vars

\* an outcome is seen in every interface but the silent one, where only failures are; it is seen for what it is
Told == act.k = "how" /\ (s.ui # "silent" \/ IsErr(act.arg)) =>
        LET seen == Range2(shown) \cup Labels(s) IN Say(Kind(act.arg), Body(act.arg)) \in seen /\ \A x \in seen : x.text = Body(act.arg) => x.kind = Kind(act.arg) \/ x.kind = "plain"
\* only one outcome stands in the window at a time
OneOutcome == Cardinality({x \in Labels(s) : x.kind \in {"error", "success"}}) <= 1
\* warnings and questions reach everyone who can see them, and nothing appears twice
Reaches == act.k \in {"warn", "ask"} => Len(shown) = (IF s.ui = "silent" THEN 0 ELSE 1)
Once == Len(shown) <= 1
\* what is shown permanently changes only by being replaced
Steady == act.k \in {"warn", "ask", "error", "info", "resize", "press"} => Labels(s) = Labels(was)
\* the size of the window is kept from session to session
Kept == /\ act.k = "again" => s.geo = was.geo
        /\ act.k = "quit" => s.opts = was.geo /\ s.geo = was.geo
        /\ act.k = "resize" => s.geo = act.arg
Runs(u) == UNION {{q \in [1..i -> {a \in Actions : \E g \in BOOLEAN : Fits([Begin(u, "") EXCEPT !.gone = g], a) \/ (u = "window" /\ a.k = "press")}] : TRUE} : i \in 1..MaxReplay}
Valid(u, q) == LET RECURSIVE Go(_, _)
                   Go(ss, i) == i > Len(q) \/ (Fits(ss, q[i]) /\ Go(After(ss, q[i]), i + 1))
               IN Go(Begin(u, ""), 1)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(UNION {{[ui |-> u, acts |-> q] : q \in {r \in Runs(u) : Valid(u, r)}} : u \in UIs}))
=============================================================================
