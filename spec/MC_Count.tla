----------------------------- MODULE MC_Count -----------------------------
(* All short texts over the alphabet that matters to counting. *)
EXTENDS Count, Json, IOUtils
CONSTANTS MaxTokens
Alphabet == {"a", " ", "\n", "-", "—", "[", "]", "/*", "*/", ">", "/", "*"}
VARIABLE s, n
vars == <<s, n>>
Init == s = "" /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E t \in Alphabet : s' = s \o t
Spec == Init /\ [][Next]_vars

Plain(x) == \A i \in 1..Len(x) : Ch(x, i) \notin {"[", "]", "/", "*", ">", "-"}
\* formatting codes and comments do not change the counts of plain text
CodesDoNotCount == Plain(s) =>
    /\ Words("[i]" \o s \o "[/i]") = Words(s) /\ Letters("[i]" \o s \o "[/i]") = Letters(s)
    /\ Words(s \o "/* x y\n\nz */") = Words(s) /\ Letters(s \o "/* x y\n\nz */") = Letters(s)
    /\ Words(s \o "/**/") = Words(s) /\ Letters("/**/" \o s) = Letters(s)
\* joining two texts by a space adds their words
Additive == Plain(s) => Words(s \o " " \o s) = 2 * Words(s)
Bounds == Words(s) <= Len(s) /\ Letters(s) <= Len(s)
DashSeparates == Plain(s) => Words("a--" \o s) = 1 + Words(s)
HyphenJoins == Words("a-b") = 1 /\ Words("a--b") = 2 /\ Words("a—b") = 2 /\ Words("a–b") = 2 /\ Words("> a") = 1 /\ Words("a\n> b") = 2

RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {""} ELSE Texts(k - 1) \cup {x \o t : x \in Texts(k - 1), t \in Alphabet}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<SetToSeq(Texts(MaxTokens))>>)
=============================================================================
