----------------------------- MODULE MC_Launch -----------------------------
(***************************************************************************)
(* All systems, and all short file names made of characters that mean       *)
(* something to a shell.                                                    *)
(***************************************************************************)
EXTENDS Launch, Json, IOUtils
CONSTANTS MaxLen
Alphabet == {"a", " ", "\"", "'", "$", "`", ";", "&", "|", ">", "(", ")", "*", "%", "#", "-", "!"}
RECURSIVE Names(_)
Names(k) == IF k = 0 THEN {""} ELSE LET R == Names(k - 1) IN R \cup {r \o c : r \in {q \in R : Len(q) = k - 1}, c \in Alphabet}
Systems == [{"startfile", "xdg-open", "open"} -> {"missing", "works", "refuses"}]

VARIABLES has, name
Init == has \in Systems /\ name \in Names(MaxLen)
Next == UNCHANGED <<has, name>>
Spec == Init /\ [][Next]_<<has, name>>
S == Started(has, "/d/x" \o name)
AtMostOnce == Len(S) <= 1
ThatDocument == \A i \in DOMAIN S : S[i].args = <<"/d/x" \o name>>
Possible == (S = <<>>) <=> (\A w \in DOMAIN has : has[w] = "missing" \/ (w = "startfile" /\ has[w] = "refuses"))
NotMissing == \A i \in DOMAIN S : has[S[i].way] # "missing"
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({[has |-> h] : h \in Systems}) \o SetToSeq({[name |-> n] : n \in Names(MaxLen)}))
=============================================================================
