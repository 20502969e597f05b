------------------------------ MODULE Translate ------------------------------
(***************************************************************************)
(* How the program's messages get translated: the messages found in the    *)
(* source code make the template; a language's file is brought up to date  *)
(* with the template and, if wanted, exchanges translations with a          *)
(* dictionary all projects share; a catalogue is compiled for the program. *)
(* A table is a function from messages to translations ("" = not yet).     *)
(***************************************************************************)
EXTENDS Base

None == [m \in {} |-> ""]
\* the last entry counts if a message occurs more than once
TabOf(q) == [m \in {q[i].m : i \in DOMAIN q} |-> q[Max({i \in DOMAIN q : q[i].m = m})].t]
Done(tab) == {m \in DOMAIN tab : tab[m] # ""}
Filled(tab) == [m \in Done(tab) |-> tab[m]]
\* a takes precedence over b
Over(a, b) == [m \in DOMAIN a \cup DOMAIN b |-> IF m \in DOMAIN a THEN a[m] ELSE b[m]]

UpdatedPo(pot, po, dict, shared) ==
    LET all == IF shared THEN Over(Filled(po), Filled(dict)) ELSE Filled(po)
    IN [m \in pot |-> IF m \in DOMAIN all THEN all[m] ELSE ""]
UpdatedDict(po, dict) == Over(Filled(po), Filled(dict))
Complete(po) == Done(po) = DOMAIN po
\* what the program shows
Shown2(catalogue, m) == IF m \in DOMAIN catalogue THEN catalogue[m] ELSE m

\* entries of a hand-written file: fuzzy and empty ones are not in the catalogue; a context is part of the key
Key(e) == IF e.c = NULL THEN e.m ELSE e.c \o "|" \o e.m
CatalogueOf(q) ==
    LET good == SelectSeq(q, LAMBDA e : ~e.fuzzy /\ e.t # "")
    IN [k \in {Key(good[i]) : i \in DOMAIN good} |-> good[Max({i \in DOMAIN good : Key(good[i]) = k})].t]
=============================================================================
