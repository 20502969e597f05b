------------------------------- MODULE Count -------------------------------
(***************************************************************************)
(* Words and letters of a scene, after the rules of the word processor:     *)
(* comments and codes in square brackets do not count, dashes separate      *)
(* words, hyphens join them, line breaks are no letters.                    *)
(***************************************************************************)
EXTENDS Base

\* end of the code beginning at i, 0 if none begins there:
\* a bracket, at least one character, and the first closing bracket after that, in one line
CodeEnd(s, i) ==
    IF Ch(s, i) # "[" THEN 0
    ELSE LET e == FindFrom(s, "]", i + 2)
             n == FindFrom(s, "\n", i + 1)
         IN IF e = 0 \/ (n # 0 /\ n < e) THEN 0 ELSE e
\* end of the comment beginning at i, 0 if none begins there
CommentEnd(s, i) ==
    IF ~(i < Len(s) /\ SubSeq(s, i, i + 1) = "/*") THEN 0
    ELSE LET e == FindFrom(s, "*/", i + 2) IN IF e = 0 THEN 0 ELSE e + 1

\* the text without codes and comments and without the characters at which Drop holds
RECURSIVE Without(_, _, _, _)
Without(s, i, Drop(_, _), acc) ==
    IF i > Len(s) THEN acc
    ELSE LET c == CodeEnd(s, i) IN
         IF c # 0 THEN Without(s, c + 1, Drop, acc)
         ELSE LET k == CommentEnd(s, i) IN
              IF k # 0 THEN Without(s, k + 1, Drop, acc)
              ELSE Without(s, i + 1, Drop, IF Drop(s, i) THEN acc ELSE acc \o Ch(s, i))

\* dashes separate words
RECURSIVE Dashes(_, _, _)
Dashes(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF i < Len(s) /\ SubSeq(s, i, i + 1) = "--" THEN Dashes(s, i + 2, acc \o " ")
    ELSE IF Ch(s, i) \in {"—", "–"} THEN Dashes(s, i + 1, acc \o " ")
    ELSE Dashes(s, i + 1, acc \o Ch(s, i))

LineStart(s, i) == i = 1 \/ Ch(s, i - 1) = "\n"
HyphenOrQuoteMark(s, i) == Ch(s, i) = "-" \/ (Ch(s, i) = ">" /\ LineStart(s, i))
LineBreak(s, i) == Ch(s, i) = "\n"

Words(text) ==
    LET t == Without(Dashes(text, 1, ""), 1, HyphenOrQuoteMark, "")
    IN Cardinality({i \in 1..Len(t) : Ch(t, i) \notin White /\ (i = 1 \/ Ch(t, i - 1) \in White)})
Letters(text) == Len(Without(text, 1, LineBreak, ""))

\* a scene without a text has no words and no letters
WordsOf(text) == IF text = NULL THEN 0 ELSE Words(text)
LettersOf(text) == IF text = NULL THEN 0 ELSE Letters(text)
=============================================================================
