----------------------------- MODULE MC_Translate -----------------------------
(***************************************************************************)
(* Developers change the messages, translators fill in the files of two     *)
(* languages, and the tools are run in any order.                           *)
(***************************************************************************)
EXTENDS Translate, Json, IOUtils
CONSTANTS MaxSteps, MaxReplay
VARIABLES src, pot, po, dict, mo, ever, act, n
vars == <<src, pot, po, dict, mo, ever, act, n>>

MSGS == {"a", "b"}
LANGS == {"de", "fr"}
Ops == {[k |-> "src", l |-> "", m |-> x, t |-> ""] : x \in {"", "a", "b", "ab"}} \cup {[k |-> "scan", l |-> "", m |-> "", t |-> ""]}
       \cup {[k |-> "po", l |-> l, m |-> m, t |-> t] : l \in LANGS, m \in MSGS, t \in {"", "x", "y"}}
       \cup {[k |-> "update", l |-> l, m |-> "", t |-> s] : l \in LANGS, s \in {"T", "F"}}
       \cup {[k |-> "compile", l |-> l, m |-> "", t |-> ""] : l \in LANGS}
SrcOf(x) == CASE x = "" -> {} [] x = "ab" -> MSGS [] OTHER -> {x}

Init == /\ src = MSGS /\ pot = MSGS /\ po = [l \in LANGS |-> [m \in MSGS |-> IF l = "de" /\ m = "a" THEN "x" ELSE ""]]
        /\ dict = [l \in LANGS |-> None] /\ mo = [l \in LANGS |-> None] /\ ever = [l \in LANGS |-> None]
        /\ act = [k |-> "start", l |-> "", m |-> "", t |-> ""] /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E o \in Ops :
             /\ act' = o
             /\ src' = IF o.k = "src" THEN SrcOf(o.m) ELSE src
             /\ pot' = IF o.k = "scan" THEN src ELSE pot
             /\ po' = CASE o.k = "po" -> IF o.m \in DOMAIN po[o.l] THEN [po EXCEPT ![o.l] = [@ EXCEPT ![o.m] = o.t]] ELSE po
                        [] o.k = "update" -> [po EXCEPT ![o.l] = UpdatedPo(pot, @, dict[o.l], o.t = "T")]
                        [] OTHER -> po
             /\ dict' = IF o.k = "update" /\ o.t = "T" THEN [dict EXCEPT ![o.l] = UpdatedDict(po[o.l], @)] ELSE dict
             /\ ever' = IF o.k = "update" /\ o.t = "T" THEN [ever EXCEPT ![o.l] = Over(Filled(po[o.l]), @)] ELSE ever
             /\ mo' = IF o.k = "compile" THEN [mo EXCEPT ![o.l] = Filled(po[o.l])] ELSE mo
Spec == Init /\ [][Next]_vars

\* the file of a language that has just been brought up to date holds the messages of the template
UpToDate == act.k = "update" => DOMAIN po[act.l] = pot
\* a translation that has been shared is never lost, even if its message vanishes for a while
NothingLost == /\ \A l \in LANGS : dict[l] = ever[l]
               /\ act.k = "update" /\ act.t = "T" => \A m \in pot \cap DOMAIN ever[act.l] : po[act.l][m] = ever[act.l][m]
\* the program shows the translations of its language or the message itself
Catalogues == act.k = "compile" =>
    \A m \in MSGS : Shown2(mo[act.l], m) = IF m \in Done(po[act.l]) THEN po[act.l][m] ELSE m
Cases == UNION {[1..i -> Ops] : i \in 1..MaxReplay}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
