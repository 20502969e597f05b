----------------------------- MODULE JudgeReport -----------------------------
(***************************************************************************)
(* Trace validation of recorded sessions with a user interface.             *)
(*   shown   what has appeared: [kind, text]                                *)
(*   printed what has been printed      labels  what stands in the window   *)
(***************************************************************************)
EXTENDS Report, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, s
vars == <<t, l, s>>
Ev == Traces[t].ev[l]
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " report." \o f)
\* a console marks failures and warnings in words
Marked(x, p) == LET q == LStrip(p)
                    fail == StartsWith(q, "FAIL")
                    warn == StartsWith(q, "WARNING") IN
                CASE x.kind = "error" -> fail
                  [] x.kind \in {"warning", "question"} -> warn
                  [] OTHER -> ~fail /\ ~warn
Console(exp, e) == IF exp = <<>> THEN (IF Strip(e.printed) = "" THEN {} ELSE {"noise"})
                   ELSE IF FindFrom(e.printed, exp[1].text, 1) = 0 THEN {"text"}
                   ELSE IF exp[1].text # "" /\ FindFrom(e.printed, exp[1].text, FindFrom(e.printed, exp[1].text, 1) + Len(exp[1].text)) # 0 THEN {"twice"}
                   ELSE IF ~Marked(exp[1], e.printed) THEN {"kind"} ELSE {}
Faults(e) ==
    LET exp == Appears(s, e)
        x == After(s, e)
    IN IF e.out # "ok" THEN {"crash"}
       ELSE (IF s.ui \in {"console", "silent"} THEN Console(exp, e) \cup (IF e.shown # <<>> THEN {"box"} ELSE {})
             ELSE (IF e.printed # "" THEN {"noise"} ELSE {})
                  \cup (IF e.shown = exp THEN {} ELSE IF Len(e.shown) # Len(exp) THEN {"count"} ELSE IF e.shown[1].text # exp[1].text THEN {"text"} ELSE {"kind"}))
            \cup (IF Range2(e.labels) = Labels(x) /\ Len(e.labels) = Cardinality(Labels(x)) THEN {} ELSE {"window"})
            \cup (IF e.k \in {"ask", "press"} /\ e.ret # Answer(s, e) THEN {"answer"} ELSE {})
            \cup (IF e.k = "quit" /\ ~e.left THEN {"stays"} ELSE {})
            \cup (IF s.ui = "main" /\ e.geo # x.geo THEN {"size"} ELSE {})
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Begin(Traces[t].env.ui, "")
Next == /\ l <= Len(Traces[t].ev) /\ Report(Faults(Ev)) /\ l' = l + 1 /\ t' = t /\ s' = After(s, Ev)
Spec == Init /\ [][Next]_vars
=============================================================================
