------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Application settings (strings) and options (booleans), and the INI file  *)
(* that carries them from one session to the next.                          *)
(* A file is a record of two sections (functions from names to raw values); *)
(* an absent section is NoSection.  Names are compared without case.        *)
(***************************************************************************)
EXTENDS Base

NoSection == [x \in {} |-> ""]
NoFile == [set |-> NoSection, opt |-> NoSection]

Truths == {"yes", "true", "on", "1"}
Falsehoods == {"no", "false", "off", "0"}

\* a value that is not there, or that is not a boolean, leaves the option unchanged
ReadOption(old, raw) == IF raw \in Truths THEN "T" ELSE IF raw \in Falsehoods THEN "F" ELSE old

\* reading a file never adds or removes names, it only replaces values
ReadInto(m, f) ==
    [ set |-> [k \in DOMAIN m.set |-> IF k \in DOMAIN f.set THEN f.set[k] ELSE m.set[k]],
      opt |-> [k \in DOMAIN m.opt |-> IF k \in DOMAIN f.opt THEN ReadOption(m.opt[k], f.opt[k]) ELSE m.opt[k]] ]

\* writing a file lays down exactly what is in memory
WriteFile(m) == [ set |-> m.set, opt |-> [k \in DOMAIN m.opt |-> IF m.opt[k] = "T" THEN "yes" ELSE "no"] ]
=============================================================================
