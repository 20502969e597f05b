------------------------------ MODULE MC_Custom ------------------------------
(***************************************************************************)
(* One element of a project file with two names declared by an application *)
(* and one that nobody declared, from every state a file may be in, under  *)
(* all sequences of setting, emptying, forgetting, saving, rereading, and   *)
(* resetting. The sequences are replayed on elements of every kind.        *)
(***************************************************************************)
EXTENDS Custom, Json, IOUtils, SequencesExt
CONSTANTS MaxSteps, MaxReplay
VARIABLES e, mem, kept, act, n
vars == <<e, mem, kept, act, n>>

NAMES == {"Field_A", "Field_B"}
Priors == {<<>>} \cup {<<Elem("Fields", NULL, x)>> : x \in
             {<<>>, <<Leaf("Field_A", "old")>>, <<Leaf("Field_A", NULL)>>, <<Leaf("Field_Z", "9")>>,
              <<Leaf("Field_Z", "9"), Leaf("Field_B", "old"), Leaf("Field_A", "old")>>}}
Ops == {<<"set", f, x>> : f \in NAMES, x \in {"1", ""}} \cup {<<"set", "Field_A", NULL>>}
       \cup {<<"save">>, <<"load">>, <<"reset">>}
Start(p) == Elem("E", NULL, <<Leaf("ID", "1")>> \o p)
Held(x) == [f \in NAMES |-> SubText(x, "Fields", f)]
Others(x) == OtherFields(x, NAMES)

Init == \E p \in Priors : e = Start(p) /\ mem = Held(e) /\ kept = Others(e) /\ act = <<"load">> /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1 /\ kept' = kept
        /\ \E o \in Ops :
             /\ act' = o
             /\ CASE o[1] = "set" -> mem' = [mem EXCEPT ![o[2]] = o[3]] /\ e' = e
                  [] o[1] = "save" -> e' = WriteEntry(e, mem) /\ mem' = mem
                  [] o[1] = "load" -> mem' = Held(e) /\ e' = e
                  [] OTHER -> mem' = [f \in NAMES |-> ""] /\ e' = e
Spec == Init /\ [][Next]_vars

Stored == act[1] = "save" => Held(e) = [f \in NAMES |-> T(mem[f])]
OthersStay == Others(e) = kept
OneEach == act[1] = "save" =>
    \A f \in NAMES : Cardinality({i \in DOMAIN KidsIn(e, "Fields") : KidsIn(e, "Fields")[i].g = f}) = IF T(mem[f]) = NULL THEN 0 ELSE 1
Stable == act[1] = "save" => WriteEntry(e, mem) = e
Cases == {[prior |-> p, ops |-> q] : p \in Priors, q \in UNION {[1..i -> Ops] : i \in 1..MaxReplay}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
