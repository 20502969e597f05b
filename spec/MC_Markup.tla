------------------------------ MODULE MC_Markup ------------------------------
(* All short texts over the markup alphabet: laws of the markup's meaning, and the cases for the program. *)
EXTENDS Markup, Json, IOUtils
CONSTANTS MaxTokens
Alphabet == {"a", " ", "\n", "> ", "[i]", "[/i]", "[b]", "[/b]", "[lang=de-DE]", "[/lang=de-DE]", "/*", "*/", "[c]"}
Langs == <<"de-DE">>
VARIABLES s, n
vars == <<s, n>>
Init == s = "" /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E t \in Alphabet : s' = s \o t
Spec == Init /\ [][Next]_vars

TagSet == Tags(Langs)
RECURSIVE Strike(_, _)
Strike(x, ps) == IF \A p \in ps : ~HasSub(x, p) THEN x
                 ELSE LET p == CHOOSE p \in ps : HasSub(x, p) IN LET i == FindFrom(x, p, 1) IN Strike(SubSeq(x, 1, i - 1) \o SubSeq(x, i + Len(p), Len(x)), ps)
TagStrings == UNION {{"[" \o t \o "]", "[/" \o t \o "]"} : t \in TagSet} \cup {"[c]"}
NoComment == ~HasSub(s, "/*")
TextOf(lns) == Join(Map(lns, LAMBDA ln : (IF ln.q THEN "> " ELSE "") \o PlainRuns(ln.r)), "\n")
\* nothing but markup disappears
NothingLost == NoComment => RStrip(TextOf(Lines(s, Langs))) = RStrip(Strike(s, TagStrings))
\* one paragraph per line
OneParaPerLine == NoComment => Len(Paras(s, Langs, "F", "")) <= Len(SplitAt(s, "\n"))
\* runs are maximal and never empty
Canonical == LET ls == Lines(s, Langs) IN
    \A i \in DOMAIN ls : /\ \A j \in DOMAIN ls[i].r : ls[i].r[j].t = "t" => ls[i].r[j].x # ""
                         /\ \A j \in 1..(Len(ls[i].r) - 1) : ls[i].r[j].t = "t" /\ ls[i].r[j + 1].t = "t" => ls[i].r[j].f # ls[i].r[j + 1].f
\* text after everything has been closed is plain
NoLeak == NoComment =>
    LET closed == s \o "[/i][/b][/i][/b][/i][/b][/i][/b][/i][/b][/lang=de-DE][/lang=de-DE][/lang=de-DE][/lang=de-DE][/lang=de-DE]z"
        ls == Lines(closed, Langs)
        last == ls[Len(ls)].r
    IN last # <<>> /\ EndsWith(last[Len(last)].x, "z") /\ last[Len(last)].f = <<>>
\* the normal form does not depend on redundant tags
Redundant == NF("[i][/i]" \o s, Langs) = NF(s, Langs) \/ HasSub(s, "/*") \/ StartsWith(s, "> ") \/ HasSub(s, "[/i]")

RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {""} ELSE LET R == Texts(k - 1) IN R \cup {x \o t : x \in R, t \in Alphabet}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<SetToSeq(Texts(MaxTokens))>>)
=============================================================================
