----------------------------- MODULE MC_Convert -----------------------------
(* Sequences of conversions in one folder: laws of conversions, and the situations to be replayed. *)
EXTENDS Convert, Json, IOUtils
CONSTANTS MaxSteps
VARIABLES f, n, last
vars == <<f, n, last>>
F(c, h) == [c |-> c, h |-> h]
Names == {"p.yw7", "p.odt", "p_notes.odt", "p_xref.odt", "p_itemlist.ods", "p_notes.yw7"}
Starts == {("p.yw7" :> F("prj", "0")), ("p.odt" :> F("work", "0")), ("p.odt" :> F("outline", "0")) @@ ("p_notes.odt" :> F("work", "0")),
           ("p.yw7" :> F("bad", "0")) @@ ("p_notes.odt" :> F("work", "0")), ("p_notes.yw7" :> F("prj", "0")) @@ ("p.yw7.lock" :> F("bad", "0")) @@ ("p.odt" :> F("work", "0")),
           ("p.yw7" :> F("prj", "0")) @@ ("p_itemlist.ods" :> F("dir", "0")),
           ("p.yw7" :> F("prj", "0")) @@ ("p.yw7.lock" :> F("bad", "0")) @@ ("p_notes.odt" :> F("work", "0"))}
Init == f \in Starts /\ n = 0 /\ last = [job |-> "none", ok |-> FALSE, new |-> NULL, yes |-> FALSE, before |-> f]
Convert(path, suffix, yes) ==
    LET j == Job("both", f, path, suffix)
        ok == CanDo(f, path, j, yes)
    IN /\ n < MaxSteps /\ n' = n + 1
       /\ IF ok THEN \E c \in MadeBy(j) : f' = After(f, j, c, ToString(n + 1)) ELSE f' = f
       /\ last' = [job |-> j.job, ok |-> ok, new |-> IF ok THEN j.target ELSE NULL, yes |-> yes, before |-> f]
Next == \E path \in Names, suffix \in {"", "_notes", "_xref", "_itemlist", "_foo"}, yes \in BOOLEAN :
            (Ext(path) = ".yw7" \/ suffix = "") /\ Convert(path, suffix, yes)
Spec == Init /\ [][Next]_vars

\* what has been announced is there and complete
Announced == last.new # NULL => last.new \in DOMAIN f /\ f[last.new].c # "bad" /\ f[last.new].h = ToString(n)
\* nothing but the target and its backup is touched
Untouched == \A x \in DOMAIN last.before : (last.new # NULL /\ x \in {last.new, last.new \o ".bak"}) \/ f[x] = last.before[x]
NoOther == \A x \in DOMAIN f \ DOMAIN last.before : last.new # NULL /\ x \in {last.new, last.new \o ".bak"}
\* nothing is overwritten without consent; nothing that was overwritten is lost
Consent == last.new # NULL /\ last.new \in DOMAIN last.before => last.yes /\ f[last.new \o ".bak"] = last.before[last.new]
\* a project is never lost or replaced by a new one
Created == last.job = "create" /\ last.ok => last.new \notin DOMAIN last.before
Lock == \A x \in {"p.yw7", "p_notes.yw7"} : (x \o ".lock") \in DOMAIN f /\ x \in DOMAIN f => x \in DOMAIN last.before /\ f[x] = last.before[x]

-----------------------------------------------------------------------------
(* the situations, completely *)
Bak(t, b) == IF b THEN {<<t \o ".bak", "bad">>} ELSE {}
Lck(t, b) == IF b THEN {<<t \o ".lock", "bad">>} ELSE {}
Opt(t, c) == IF c = "none" THEN {} ELSE {<<t, c>>}
Sit(conv, files, path, suffix, yes) == [conv |-> conv, files |-> SetToSeq(files), path |-> path, suffix |-> suffix, yes |-> yes]
Exports == {Sit("both", {<<"p.yw7", s>>} \cup Opt("p" \o k \o ExtOf(k), t) \cup Lck("p.yw7", lk) \cup (IF t = "none" THEN {} ELSE Bak("p" \o k \o ExtOf(k), b)), "p.yw7", k, yes) :
               s \in {"prj", "bad"}, k \in EXPORTKINDS, t \in {"none", "bad", "dir"}, lk \in BOOLEAN, b \in BOOLEAN, yes \in BOOLEAN}
DocClass(k) == IF k \in SHEETKINDS THEN "sheet" ELSE "work"
Imports == {Sit("both", {<<"p" \o k \o ExtOf(k), s>>} \cup Opt("p.yw7", t) \cup Bak("p.yw7", b) \cup Lck("p.yw7", lk), "p" \o k \o ExtOf(k), "", yes) :
               k \in IMPORTKINDS, s \in {"work", "sheet", "bad"}, t \in {"none", "prj", "bad", "dir"}, b \in BOOLEAN, lk \in BOOLEAN, yes \in BOOLEAN}
Fitting == {x \in Imports : \A i \in DOMAIN x.files : x.files[i][1] = x.path => x.files[i][2] \in {DocClass(KindOf(x.path)), "bad"}}
Odd == {"n.odt", "n_xref.odt", "n_brf_synopsis.odt", "n_foo.odt", "notes.odt", "n.ods", "n.ODT", "n_notes.ods", "n_itemlist.odt", "n.txt", "n", "n.yw7.odt", "n_notes.odt.odt", "n.odt.bak"}
Creates == {Sit("both", {<<p, s>>} \cup Opt(Stem(p) \o ".yw7", t) \cup Lck(Stem(p) \o ".yw7", lk), p, "", yes) :
               p \in Odd, s \in {"work", "outline", "bad"}, t \in {"none", "prj", "bad"}, lk \in BOOLEAN, yes \in BOOLEAN}
Missing == {Sit("both", {<<"q.yw7", "prj">>} \cup Opt(p, d), p, k, TRUE) : p \in {"n.odt", "q_notes.odt", "p.yw7", "q_charlist.ods", ""}, d \in {"none", "dir"}, k \in {"", "_notes"}}
Named == {Sit(conv, {<<p, "prj">>, <<Stem(p) \o k \o ExtOf(k), DocClass(k)>>} \cup Opt("m.yw7", IF p = "m.yw7" THEN "none" ELSE "prj"), IF back THEN Stem(p) \o k \o ExtOf(k) ELSE p, k, TRUE) :
             conv \in {"both", "import", "export"}, p \in {"m.yw7", "m_notes.yw7", "a.b.yw7", "x_notes_notes.yw7", "d_notes/m.yw7", "d.x/.yw7", "m v_notes x.yw7", "_notes.yw7"}, k \in {"_notes", "_manuscript", "_charlist"}, back \in BOOLEAN}
Unknown == {Sit(conv, {<<"p.yw7", "prj">>}, "p.yw7", k, TRUE) : conv \in {"both", "import", "export"}, k \in {"_foo", "notes", "_NOTES", "_notes.odt", "_notes", ""}}
Each == {Sit(conv, {<<"m.yw7", "prj">>, <<"m" \o k \o ExtOf(k), DocClass(k)>>}, IF back THEN "m" \o k \o ExtOf(k) ELSE "m.yw7", k, TRUE) :
             conv \in {"import", "export"}, k \in EXPORTKINDS, back \in BOOLEAN}
Others == {Sit(conv, {<<p, "work">>}, p, "", TRUE) : conv \in {"import", "export"}, p \in {"n.odt", "n_xref.odt", "n.txt", "n_notes.odt"}}
Odd1 == {x \in Missing : x.path # ""}
Situations == Exports \cup Fitting \cup Creates \cup Odd1 \cup Named \cup Unknown \cup Each \cup Others
Outcome(s) == LET g == [x \in {s.files[i][1] : i \in DOMAIN s.files} |-> F((CHOOSE e \in ToSet(s.files) : e[1] = x)[2], "0")]
                  j == Job(s.conv, g, s.path, s.suffix)
              IN [job |-> j.job, ok |-> CanDo(g, s.path, j, s.yes)] @@ s
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<SetToSeq({Outcome(s) : s \in Situations})>>)
=============================================================================
