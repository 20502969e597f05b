----------------------------- MODULE MC_Config -----------------------------
EXTENDS Config
Names == {"p", "q"}
Vals == {"", "a", "b%c"}
Raw == {"yes", "off", "junk"}
VARIABLES m, f, last
vars == <<m, f, last>>
Sub(S, V) == UNION {[D -> V] : D \in SUBSET S}
Mems == [set : Sub(Names, Vals), opt : Sub({"o"}, {"T", "F"})]
Files == [set : Sub(Names, Vals), opt : Sub({"o"}, Raw)]
Init == m \in Mems /\ f = NoFile /\ last = "init"
Write == f' = WriteFile(m) /\ last' = "write" /\ UNCHANGED m
Read == m' = ReadInto(m, f) /\ last' = "read" /\ UNCHANGED f
Set == m' \in Mems /\ last' = "set" /\ UNCHANGED f
HandEdit == f' \in Files /\ last' = "edit" /\ UNCHANGED m
Next == Write \/ Read \/ Set \/ HandEdit
Spec == Init /\ [][Next]_vars
\* whatever a session has written, the next session with the same names reads back
Persist == last = "write" => \A d \in Mems : (DOMAIN d.set = DOMAIN m.set /\ DOMAIN d.opt = DOMAIN m.opt) => ReadInto(d, f) = m
\* reading keeps the set of names
NamesKept == [][last' = "read" => DOMAIN m'.set = DOMAIN m.set /\ DOMAIN m'.opt = DOMAIN m.opt]_vars
ReadTwice == last = "read" => ReadInto(m, f) = m
=============================================================================
