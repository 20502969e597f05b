----------------------------- MODULE MC_Sections -----------------------------
(***************************************************************************)
(* All small documents with sections, also with unknown ones and the        *)
(* author's own ones: laws of writing them back, and the cases for the      *)
(* program.                                                                 *)
(***************************************************************************)
EXTENDS Import, Json, IOUtils
CONSTANTS MaxBlocks

Secs == {"ChID:3", "ChID:9", "ScID:2", "ScID:4", "ScID:8", "Mine"}
Codes == {"h2", "h3", "t", "f"}

VARIABLES s, sk        \* the blocks so far, the names of the open sections
vars == <<s, sk>>
Is(x, p) == StartsWith(x, p)
InScene == \E i \in DOMAIN sk : Is(sk[i], "ScID")
InChapter == \E i \in DOMAIN sk : Is(sk[i], "ChID")
Init == s = <<>> /\ sk = <<>>
Room(k) == Len(s) + Len(sk) + k <= MaxBlocks
OpenSec == /\ Room(2)
        /\ \E x \in Secs : /\ \A i \in DOMAIN s : s[i] # x
                           /\ (Is(x, "ChID") => ~InScene /\ ~InChapter)
                           /\ (Is(x, "ScID") => ~InScene)
                           /\ s' = Append(s, x) /\ sk' = Append(sk, x)
CloseSec == sk # <<>> /\ s' = Append(s, "end") /\ sk' = SubSeq(sk, 1, Len(sk) - 1)
Text == Room(1) /\ \E c \in Codes : s' = Append(s, c) /\ UNCHANGED sk
Next == OpenSec \/ CloseSec \/ Text
Spec == Init /\ [][Next]_vars
Whole == sk = <<>>

Run(x, f) == [t |-> "t", x |-> x, f |-> f, a |-> "", p |-> <<>>]
Blk(k, st, r) == [k |-> k, s |-> st, r |-> r]
BlockOf(c, i) ==
    LET x == ToString(i)
    IN CASE c = "end" -> Blk("end", "", <<>>) [] c \in Secs -> Blk("sec", c, <<>>)
         [] c \in {"h2", "h3"} -> Blk(c, "Heading_20_" \o Ch(c, 2), <<Run("H" \o x, <<>>)>>)
         [] c = "t" -> Blk("p", "Text_20_body", <<Run("t" \o x, <<>>)>>)
         [] c = "f" -> Blk("p", "Text_20_body", <<Run("t" \o x, <<"i">>)>>)
Doc1 == [blocks |-> [i \in DOMAIN s |-> BlockOf(s[i], i)], rows |-> <<>>,
         meta |-> [title |-> "N", author |-> "A", desc |-> "", lang |-> "en", country |-> "US"]]
Novel ==
    [EmptyProject EXCEPT
        !.scs = [a \in 1..3 |-> [BlankScene(ToString(a + 1)) EXCEPT !.title = "T" \o ToString(a), !.desc = "D" \o ToString(a), !.content = "old", !.status = "1", !.typ = "0"]],
        !.chs = <<[BlankChapter("3") EXCEPT !.title = "A", !.lev = "0", !.typ = "0", !.scs = <<"2", "3">>],
                  [BlankChapter("1") EXCEPT !.title = "B", !.lev = "0", !.typ = "0", !.scs = <<"4">>]>>]
Res(kind) == Imported(kind, Novel, Doc1)
R1 == Res("_manuscript")

\* where a block is: the name of the innermost chapter or scene section around it
RECURSIVE Around(_, _)
Around(i, st) == IF i = 0 THEN <<>> ELSE LET o == Around(i - 1, st) IN IF s[i] = "end" THEN SubSeq(o, 1, Len(o) - 1) ELSE IF s[i] \in Secs THEN Append(o, s[i]) ELSE o
Inside(i, x) == InSeq(x, Around(i, ""))
Sel(P(_)) == Map(SelectSeq([i \in DOMAIN s |-> i], P), LAMBDA i : "t" \o ToString(i))
TextIn(x) == Sel(LAMBDA i : s[i] \in {"t", "f"} /\ Inside(i, x))
Named(id) == \E i \in DOMAIN s : s[i] = "ScID:" \o id
\* headings within a scene divide it (see MC_Split)
Undivided == \A i \in DOMAIN s : s[i] = "h2" => \A j \in DOMAIN Around(i, "") : ~Is(Around(i, "")[j], "ScID")
PlainLines(ls) == Map(ls, LAMBDA ln : PlainRuns(ln.r))

\* exactly the texts within a scene's section become the scene's text
Texts == Whole /\ Undivided /\ R1.ok => /\ DOMAIN R1.txt = {id \in {"2", "4", "8"} : Named(id)}
                           /\ \A id \in DOMAIN R1.txt : SelectSeq(PlainLines(R1.txt[id]), LAMBDA x : ~StartsWith(x, "## ")) = TextIn("ScID:" \o id)
\* nothing else changes
Others == Whole /\ Undivided /\ R1.ok =>
    /\ \A id \in {"2", "3", "4"} : ById(R1.n.scs, id) = ById(Novel.scs, id)
    /\ \A id \in {"1", "3"} : LET c == ById(R1.n.chs, id) o == ById(Novel.chs, id)
                              IN [c EXCEPT !.scs = <<>>] = [o EXCEPT !.scs = <<>>] /\ SelectSeq(c.scs, LAMBDA x : InSeq(x, o.scs) \/ R1.split) # <<>>
                                 /\ (~R1.split => SelectSeq(c.scs, LAMBDA x : InSeq(x, o.scs)) = o.scs)
\* unknown scenes and chapters become new ones
Unknown == Whole /\ R1.ok => /\ Known(R1.n.chs, "9") = (\E i \in DOMAIN s : s[i] = "ChID:9")
                             /\ (Named("8") => Known(R1.n.scs, "8"))
\* a scene that is neither known nor in a chapter is the only thing that cannot be imported
Fails == Whole => (~R1.ok <=> \E i \in DOMAIN s : s[i] = "ScID:8" /\ \A j \in DOMAIN Around(i, "") : ~Is(Around(i, "")[j], "ChID"))
Reading(n) == Concat(Map(n.chs, LAMBDA c : c.scs))
Valid == Whole /\ R1.ok => /\ NoDup(Map(R1.n.chs, LAMBDA c : c.id)) /\ NoDup(Map(R1.n.scs, LAMBDA x : x.id))
                           /\ NoDup(Reading(R1.n)) /\ Range2(Reading(R1.n)) = IdSet(R1.n.scs)
\* documents with descriptions change descriptions only
Descs == Whole => LET r == Res("_chapters") IN
    r.ok /\ r.n.scs = Novel.scs /\ \A id \in {"1", "3"} : [ById(r.n.chs, id) EXCEPT !.desc = NULL] = [ById(Novel.chs, id) EXCEPT !.desc = NULL]

\* the cases that are complete
RECURSIVE Walk(_, _, _)
Walk(done, open, k) ==       \* all completions with at most k more blocks
    LET Fin == IF open = <<>> THEN {done} ELSE {}
        inSc == \E i \in DOMAIN open : Is(open[i], "ScID")
        inCh == \E i \in DOMAIN open : Is(open[i], "ChID")
    IN Fin \cup (IF k >= 1 /\ open # <<>> THEN Walk(Append(done, "end"), SubSeq(open, 1, Len(open) - 1), k - 1) ELSE {})
       \cup (IF k >= 1 + Len(open) THEN UNION {Walk(Append(done, c), open, k - 1) : c \in Codes} ELSE {})
       \cup (IF k >= 2 + Len(open) THEN UNION {Walk(Append(done, x), Append(open, x), k - 1) :
                 x \in {x \in Secs : (\A i \in DOMAIN done : done[i] # x) /\ (Is(x, "ChID") => ~inSc /\ ~inCh) /\ (Is(x, "ScID") => ~inSc)}} ELSE {})
CaseBlocks(c) == [i \in DOMAIN c |-> BlockOf(c[i], i)]
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, <<Map(SetToSeq(Walk(<<>>, <<>>, MaxBlocks)), CaseBlocks)>>)
=============================================================================
