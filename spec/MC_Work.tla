------------------------------- MODULE MC_Work -------------------------------
(***************************************************************************)
(* All short documents a new project can be made from: works in progress    *)
(* and outlines.  Laws of the import, and the cases for the program.        *)
(***************************************************************************)
EXTENDS Import, Json, IOUtils
CONSTANTS MaxBlocks, MaxOutline
WorkCodes == {"h1", "h2", "h4", "d", "t", "c", "e", "q", "l"}
OutlineCodes == {"h1", "h2", "h3", "t", "e", "f"}

VARIABLES s, outline
vars == <<s, outline>>
Init == s = <<>> /\ outline \in {TRUE, FALSE}
Next == /\ UNCHANGED outline
        /\ IF outline THEN Len(s) < MaxOutline /\ \E c \in OutlineCodes : s' = Append(s, c)
           ELSE Len(s) < MaxBlocks /\ \E c \in WorkCodes : s' = Append(s, c)
Spec == Init /\ [][Next]_vars

Run(x, f) == [t |-> "t", x |-> x, f |-> f, a |-> "", p |-> <<>>]
Comment(x) == [t |-> "c", x |-> "Me", f |-> <<>>, a |-> "", p |-> <<[s |-> "", r |-> <<Run(x, <<>>)>>]>>]
Blk(k, st, r) == [k |-> k, s |-> st, r |-> r]
BlockOf(c, i) ==
    LET x == ToString(i)
    IN CASE c \in {"h1", "h2", "h3"} -> Blk(c, "Heading_20_" \o Ch(c, 2), <<Run("H" \o x, <<>>)>>)
         [] c = "h4" -> Blk("h4", "Heading_20_4", <<Run("* * *", <<>>)>>)
         [] c = "d" -> Blk("p", "Text_20_body", <<Run("* * *", <<>>)>>)
         [] c = "t" -> Blk("p", "Text_20_body", <<Run("t" \o x, <<>>)>>)
         [] c = "f" -> Blk("p", "Text_20_body", <<Run("t", <<"i">>), Run(x, <<>>)>>)
         [] c = "c" -> Blk("p", "Text_20_body", <<Comment("k" \o x), Run("t" \o x, <<"i">>), Comment("n")>>)
         [] c = "e" -> Blk("p", "Text_20_body", <<>>)
         [] c = "q" -> Blk("p", "Quotations", <<Run("t" \o x, <<>>)>>)
         [] c = "l" -> Blk("li", "Text_20_body", <<Run("t" \o x, <<"b">>)>>)
Doc1 == [blocks |-> [i \in DOMAIN s |-> BlockOf(s[i], i)], rows |-> <<>>,
         meta |-> [title |-> "N", author |-> "A", desc |-> "", lang |-> "en", country |-> "US"]]
Res == Imported("", EmptyProject, Doc1)
AnOutline == \E i \in DOMAIN s : s[i] = "h3"

Heads == {i \in DOMAIN s : s[i] \in {"h1", "h2"}}
First == IF Heads = {} THEN Len(s) + 1 ELSE Min(Heads)
Holds(i) == s[i] \in {"t", "c", "q", "l", "f"}
Expected == Map(SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : i > First /\ Holds(i)), LAMBDA i : "t" \o ToString(i))
Reading == Concat(Map(Res.n.chs, LAMBDA c : c.scs))
OneLine(ln) == LET x == PlainRuns(SelectSeq(ln.r, LAMBDA r : r.t = "t")) IN IF StartsWith(x, "- ") THEN SubSeq(x, 3, Len(x)) ELSE x
TextRead == SelectSeq(Concat(Map(Reading, LAMBDA id : IF id \in DOMAIN Res.txt THEN Map(Res.txt[id], OneLine) ELSE <<>>)), LAMBDA x : x # "")
DescRead == SelectSeq(Concat(Map(Res.n.chs, LAMBDA c : (IF c.desc = NULL THEN <<>> ELSE SplitAt(c.desc, "\n"))
                                 \o Concat(Map(c.scs, LAMBDA id : LET x == ById(Res.n.scs, id) IN IF x.desc = NULL THEN <<>> ELSE SplitAt(x.desc, "\n"))))), LAMBDA x : x # "")

\* all text is there, in order, once
AllText == IF AnOutline THEN (Res.ok => DescRead = Expected) ELSE TextRead = Expected
\* one chapter per heading; parts are first level headings
Headed == Res.ok => /\ Map(Res.n.chs, LAMBDA c : c.title) = Map(SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] \in {"h1", "h2"}), LAMBDA i : "H" \o ToString(i))
                      /\ Map(Res.n.chs, LAMBDA c : c.lev) = Map(SelectSeq(s, LAMBDA c : c \in {"h1", "h2"}), LAMBDA c : IF c = "h1" THEN "1" ELSE "0")
Valid == /\ NoDup(Map(Res.n.chs, LAMBDA c : c.id)) /\ NoDup(Map(Res.n.scs, LAMBDA x : x.id)) /\ NoDup(Reading) /\ Range2(Reading) = IdSet(Res.n.scs)
\* one scene per section between dividers that holds a paragraph
Sections(i) == i > First /\ s[i] \notin {"h1", "h2", "h4"} /\ s[i - 1] \in {"h1", "h2", "h4", "d"}
Scenes == IF AnOutline THEN (Res.ok => Len(Res.n.scs) = Cardinality({i \in DOMAIN s : s[i] = "h3"}))
          ELSE Len(Res.n.scs) = Cardinality({i \in DOMAIN s : Sections(i)})
\* the comment at the beginning of a scene is its title
TitleComments == ~AnOutline =>
    {x.title : x \in {Res.n.scs[i] : i \in DOMAIN Res.n.scs}} \cap {"k1", "k2", "k3", "k4", "k5"}
    = {"k" \o ToString(i) : i \in {i \in DOMAIN s : s[i] = "c" /\ Sections(i)}}
\* an outline without a heading for a scene's chapter is the only document that cannot be imported
Fails == ~Res.ok <=> (AnOutline /\ Min({i \in DOMAIN s : s[i] = "h3"}) < First)

RECURSIVE Lists(_, _)
Lists(S, k) == IF k = 0 THEN {<<>>} ELSE LET R == Lists(S, k - 1) IN R \cup {Append(r, c) : r \in R, c \in S}
Cases == Lists(WorkCodes, MaxBlocks) \cup Lists(OutlineCodes, MaxOutline)
CaseBlocks(c) == [i \in DOMAIN c |-> BlockOf(c[i], i)]
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<Map(SetToSeq(Cases), CaseBlocks)>>)
=============================================================================
