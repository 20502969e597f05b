----------------------------- MODULE JudgeCount -----------------------------
(* Validation of recorded counts: every event lists texts with the counts the program has for them. *)
EXTENDS Count, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Report(fs) == \A x \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o x)
Init == t \in 1..Len(Traces) /\ l = 1
Faults(c) == (IF c.wc = ToString(WordsOf(c.text)) THEN {} ELSE {"words"})
             \cup (IF c.lc = ToString(LettersOf(c.text)) THEN {} ELSE {"letters"})
Count == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ t' = t
         /\ Report({Ev.ev \o "." \o f : f \in UNION {Faults(Ev.counts[i]) : i \in DOMAIN Ev.counts}})
Next == Count
Spec == Init /\ [][Next]_vars
=============================================================================
