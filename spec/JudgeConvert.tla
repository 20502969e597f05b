---------------------------- MODULE JudgeConvert ----------------------------
(* Trace validation of recorded conversions. *)
EXTENDS Convert, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Report(fs) == \A x \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " " \o x)
Folder(list) == [n \in {list[i].n : i \in DOMAIN list} |-> LET i == CHOOSE i \in DOMAIN list : list[i].n = n IN [c |-> list[i].c, h |-> list[i].h]]
Faults(e) ==
    LET f == Folder(e.before)
        g == Folder(e.after)
        j == Job(e.conv, f, e.path, e.suffix)
        ok == CanDo(f, e.path, j, e.yes)
        bak == j.target \o ".bak"
        told == e.how # <<>> /\ e.how[Len(e.how)] = "success"
    IN IF e.out # "ok" THEN {"unreported"}
       ELSE (IF e.how = <<>> THEN {"silent"} ELSE {})
            \cup (IF ok /\ ~told THEN {"refused"} ELSE {})
            \cup (IF ~ok /\ told THEN {"pretended"} ELSE {})
            \cup (IF told # (e.new # NULL) THEN {"announced"} ELSE {})
            \cup (IF \E i \in DOMAIN e.how : (e.how[i] = "success") # told THEN {"ambiguous"} ELSE {})
            \cup (IF e.new # NULL /\ e.new # j.target THEN {"target"} ELSE {})
            \cup (IF ok /\ told THEN
                     (IF ClassOf(g, j.target) \notin MadeBy(j) THEN {"incomplete"} ELSE {})
                     \cup (IF j.target \in DOMAIN f /\ (bak \notin DOMAIN g \/ (bak \in DOMAIN g /\ g[bak] # f[j.target])) THEN {"backup"} ELSE {})
                     \cup (IF \E n \in DOMAIN f \cup DOMAIN g : n \notin {j.target, bak} /\ (n \notin DOMAIN f \/ n \notin DOMAIN g \/ f[n] # g[n]) THEN {"touched"} ELSE {})
                     \cup (IF j.target \in DOMAIN f /\ e.asked = 0 THEN {"unasked"} ELSE {})
                     \cup (IF e.temp # 0 THEN {"debris"} ELSE {})
                  ELSE (IF f # g THEN {"changed"} ELSE {}))
            \cup (IF e.asked > 1 THEN {"askedtwice"} ELSE {})
\* one operation on the way failed: failure is reported, and nothing else suffers
Disturbed(e) ==
    LET f == Folder(e.before)
        g == Folder(e.after)
        j == Job(e.conv, f, e.path, e.suffix)
        bak == j.target \o ".bak"
        told == e.how # <<>> /\ e.how[Len(e.how)] = "success"
    IN IF e.out # "ok" THEN {"unreported"}
       ELSE IF told THEN Faults(e) \ {"debris"}
       ELSE (IF e.how = <<>> THEN {"silent"} ELSE {})
            \cup (IF \E i \in DOMAIN e.how : e.how[i] = "success" THEN {"ambiguous"} ELSE {})
            \cup (IF e.new # NULL THEN {"announced"} ELSE {})
            \cup (IF \E n \in DOMAIN f \cup DOMAIN g : n \notin {j.target, bak} /\ (n \notin DOMAIN f \/ n \notin DOMAIN g \/ f[n] # g[n]) THEN {"touched"} ELSE {})
            \cup (IF j.target \in DOMAIN f /\ ~(\E n \in {j.target, bak} \cap DOMAIN g : g[n] = f[j.target]) THEN {"lost"} ELSE {})
Init == t \in 1..Len(Traces) /\ l = 1
Convert == l <= Len(Traces[t].ev) /\ Report({"convert." \o x : x \in IF Ev.fault = "none" THEN Faults(Ev) ELSE Disturbed(Ev)}) /\ l' = l + 1 /\ t' = t
Next == Convert
Spec == Init /\ [][Next]_vars
=============================================================================
