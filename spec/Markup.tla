------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* The inline markup of yWriter texts and what it means, independent of the *)
(* spelling: a text is a sequence of lines, a line is a sequence of runs,   *)
(* a run is a piece of text with the formats that apply to it, or a comment.*)
(*                                                                          *)
(* Formats may reach across line breaks, overlap, stay open, or be closed   *)
(* without having been opened; the innermost language wins.                 *)
(***************************************************************************)
EXTENDS Base

Occurs(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
HasSub(s, p) == FindFrom(s, p, 1) # 0

\* texts and comments by turns; a comment mark without a counterpart is text
RECURSIVE CutComments(_, _)
CutComments(s, i) ==
    LET a == FindFrom(s, "/*", i)
        b == IF a = 0 THEN 0 ELSE FindFrom(s, "*/", a + 2)
    IN IF a = 0 \/ b = 0 THEN <<[c |-> FALSE, x |-> SubSeq(s, i, Len(s))]>>
       ELSE <<[c |-> FALSE, x |-> SubSeq(s, i, a - 1)], [c |-> TRUE, x |-> SubSeq(s, a + 2, b - 1)]>>
            \o CutComments(s, b + 2)

\* tokens: k = "t" text, "n" line break, "o" opening tag, "c" closing tag
TokAt(x, i, tags) ==
    IF Ch(x, i) = "\n" THEN [k |-> "n", x |-> "", n |-> 1]
    ELSE LET o == {t \in tags : Occurs(x, i, "[" \o t \o "]")}
             c == {t \in tags : Occurs(x, i, "[/" \o t \o "]")}
         IN IF o # {} THEN LET t == CHOOSE t \in o : TRUE IN [k |-> "o", x |-> t, n |-> Len(t) + 2]
            ELSE IF c # {} THEN LET t == CHOOSE t \in c : TRUE IN [k |-> "c", x |-> t, n |-> Len(t) + 3]
            ELSE [k |-> "t", x |-> "", n |-> 0]
Toks(x, tags) ==
    LET at == {i \in 1..Len(x) : Ch(x, i) \in {"\n", "["}}
        marks == SelectSeq([j \in 1..Cardinality(at) |-> LET i == SetToSortSeq(at, <)[j] IN [i |-> i, t |-> TokAt(x, i, tags)]],
                           LAMBDA m : m.t.k # "t")
        n == Len(marks)
        From(j) == IF j = 1 THEN 1 ELSE marks[j - 1].i + marks[j - 1].t.n
        Txt(j) == SubSeq(x, From(j), IF j = n + 1 THEN Len(x) ELSE marks[j].i - 1)
        Piece(j) == (IF Txt(j) = "" THEN <<>> ELSE <<[k |-> "t", x |-> Txt(j)]>>)
                    \o (IF j = n + 1 THEN <<>> ELSE <<[k |-> marks[j].t.k, x |-> marks[j].t.x]>>)
    IN Concat([j \in 1..(n + 1) |-> Piece(j)])

\* the formats that apply, given the tags that are open (outermost first)
FormatsOf(req) ==
    LET langs == SelectSeq(req, LAMBDA t : t \notin {"i", "b"})
    IN (IF InSeq("b", req) THEN <<"b">> ELSE <<>>) \o (IF InSeq("i", req) THEN <<"i">> ELSE <<>>)
       \o (IF langs = <<>> THEN <<>> ELSE <<langs[Len(langs)]>>)

RunT(x, f) == [t |-> "t", x |-> x, f |-> f, a |-> "", p |-> <<>>]
RunC(p) == [t |-> "c", x |-> "", f |-> <<>>, a |-> "", p |-> p]

AddRun(runs, r) ==
    IF r.t = "t" /\ runs # <<>> /\ runs[Len(runs)].t = "t" /\ runs[Len(runs)].f = r.f /\ runs[Len(runs)].a = r.a
    THEN SubSeq(runs, 1, Len(runs) - 1) \o <<[r EXCEPT !.x = runs[Len(runs)].x \o r.x]>>
    ELSE Append(runs, r)
AddTextRun(runs, x, f) == IF x = "" THEN runs ELSE AddRun(runs, RunT(x, f))
\* remove the innermost open tag of this kind
Close(req, tag) ==
    LET S == {i \in DOMAIN req : req[i] = tag}
    IN IF S = {} THEN req ELSE SubSeq(req, 1, Max(S) - 1) \o SubSeq(req, Max(S) + 1, Len(req))

NoLine == [q |-> FALSE, r |-> <<>>]
\* st: finished lines, the line at work, the open tags; quoting is off inside comments
Step(st, tok, quoting) ==
    CASE tok.k = "n" -> [st EXCEPT !.done = Append(st.done, st.cur), !.cur = NoLine]
      [] tok.k = "o" -> [st EXCEPT !.req = Append(st.req, tok.x)]
      [] tok.k = "c" -> [st EXCEPT !.req = Close(st.req, tok.x)]
      [] OTHER ->
         IF quoting /\ st.cur = NoLine /\ StartsWith(tok.x, "> ")
         THEN [st EXCEPT !.cur = [q |-> TRUE, r |-> AddTextRun(<<>>, SubSeq(tok.x, 3, Len(tok.x)), FormatsOf(st.req))]]
         ELSE [st EXCEPT !.cur.r = AddTextRun(st.cur.r, tok.x, FormatsOf(st.req))]
RunToks(st, toks, quoting) == FoldLeft(LAMBDA s, t : Step(s, t, quoting), st, toks)
Start == [done |-> <<>>, cur |-> NoLine, req |-> <<>>]

\* paragraph styles of lines that follow each other directly: an empty line makes a new text block
Empty(ln) == ln.r = <<>> /\ ~ln.q
RECURSIVE BreakNo(_, _)
BreakNo(lns, i) == IF i = 2 \/ ~Empty(lns[i - 1]) THEN 1 ELSE BreakNo(lns, i - 1) + 1
StyleOf(lns, i, first) ==
    IF i = 1 THEN first
    ELSE IF BreakNo(lns, i) % 2 = 1 THEN "First_20_line_20_indent" ELSE "Text_20_body"

\* tags for alignment, highlighting, underlining and striking out have no counterpart in the documents
DropAt(x, i) ==
    LET e == FindFrom(x, "]", i)
        S == {k \in (i + 1)..e : Ch(x, k) # "/"}
        k == Min(S)
    IN IF e = 0 \/ Ch(x, i) # "[" THEN 0
       ELSE IF Ch(x, k) \in {"h", "c", "r", "s", "u"} /\ \A j \in (k + 1)..(e - 1) : Ch(x, j) \in Digits THEN e - i + 1 ELSE 0
RECURSIVE DropTags(_)
DropTags(x) ==
    LET S == {i \in 1..Len(x) : Ch(x, i) = "["}
        D == {i \in S : DropAt(x, i) > 0}
    IN IF D = {} THEN x
       ELSE LET i == Min(D) IN SubSeq(x, 1, i - 1) \o DropTags(SubSeq(x, i + DropAt(x, i), Len(x)))
DropRuns(runs) ==
    FoldLeft(LAMBDA acc, r : IF r.t = "t" THEN AddTextRun(acc, DropTags(r.x), r.f) ELSE Append(acc, r), <<>>, runs)

Tags(langs) == {"i", "b"} \cup {"lang=" \o langs[i] : i \in DOMAIN langs}

CommentParas(x, tags) ==
    LET st == RunToks(Start, Toks(x, tags), FALSE)
        lns == Append(st.done, st.cur)
    IN [i \in DOMAIN lns |-> [s |-> StyleOf(lns, i, ""), r |-> DropRuns(lns[i].r)]]

PartStep(st, part, tags) ==
    IF part.c THEN [st EXCEPT !.cur.r = Append(st.cur.r, RunC(CommentParas(part.x, tags)))]
    ELSE RunToks(st, Toks(part.x, tags), TRUE)

\* blanks and empty lines at the end do not count
RECURSIVE TrimRuns(_)
TrimRuns(runs) ==
    IF runs = <<>> THEN runs
    ELSE LET r == runs[Len(runs)]
         IN IF r.t # "t" \/ r.f # <<>> THEN runs
            ELSE IF RStrip(r.x) = "" THEN TrimRuns(SubSeq(runs, 1, Len(runs) - 1))
            ELSE SubSeq(runs, 1, Len(runs) - 1) \o <<[r EXCEPT !.x = RStrip(r.x)]>>
RECURSIVE TrimLines(_)
TrimLines(lns) ==
    IF lns = <<>> THEN lns
    ELSE LET n == Len(lns)
             rs == TrimRuns(lns[n].r)
         IN IF rs # <<>> THEN SubSeq(lns, 1, n - 1) \o <<[lns[n] EXCEPT !.r = rs]>>
            ELSE IF lns[n].q THEN SubSeq(lns, 1, n - 1) \o <<[q |-> FALSE, r |-> <<RunT(">", <<>>)>>]>>
            ELSE TrimLines(SubSeq(lns, 1, n - 1))

\* the lines of a text, highlighting etc. still in it
RawLines(x, tags) ==
    LET st == FoldLeft(LAMBDA s, p : PartStep(s, p, tags), Start, CutComments(x, 1))
    IN TrimLines(Append(st.done, st.cur))

\* the text as lines, whatever way it is spelled
Txt0(x) == IF x = NULL THEN "" ELSE x
Lines(x, langs) == Map(RawLines(Txt0(x), Tags(langs)), LAMBDA ln : [ln EXCEPT !.r = DropRuns(ln.r)])

\* plain text of a run sequence, of a comment, of lines
PlainRuns(runs) == Join0(Map(runs, LAMBDA r : IF r.t = "t" THEN r.x ELSE ""))
PlainComment(r) == Join(Map(r.p, LAMBDA q : PlainRuns(q.r)), "\n")
\* normal form used to compare texts: comments are plain text
NFLine(ln) == [ln EXCEPT !.r = Map(ln.r, LAMBDA r : IF r.t = "c" THEN [t |-> "c", x |-> Strip(PlainComment(r)), f |-> <<>>] ELSE [t |-> "t", x |-> r.x, f |-> r.f])]
NF(x, langs) == Map(TrimLines(Lines(x, langs)), NFLine)

-----------------------------------------------------------------------------
(* Paragraphs of a document *)
Block(k, s, r) == [k |-> k, s |-> s, r |-> r]
P1(s, x) == Block("p", s, AddTextRun(<<>>, x, <<>>))
Signed(runs, author) == Map(runs, LAMBDA r : IF r.t = "c" THEN [r EXCEPT !.x = author] ELSE r)

\* formatted text
ParasOfLines(lns, first, author) ==
    IF lns = <<>> THEN <<Block("p", first, <<>>)>>
    ELSE [i \in DOMAIN lns |-> Block("p", IF lns[i].q THEN "Quotations" ELSE StyleOf(lns, i, first), Signed(DropRuns(lns[i].r), author))]
Paras(x, langs, first, author) == ParasOfLines(RawLines(Txt0(x), Tags(langs)), first, author)
\* formatted text where the quotation marks stay in the text
Unquoted(ln) == [q |-> FALSE, r |-> IF ln.q THEN FoldLeft(AddRun, <<RunT("> ", <<>>)>>, ln.r) ELSE ln.r]
ParasUnquoted(x, langs, first, author) == ParasOfLines(Map(RawLines(Txt0(x), Tags(langs)), Unquoted), first, author)
\* text without markup
PlainParas(x, first) ==
    LET lns == Map(SplitAt(Txt0(x), "\n"), LAMBDA l : [q |-> FALSE, r |-> AddTextRun(<<>>, l, <<>>)])
    IN [i \in DOMAIN lns |-> Block("p", StyleOf(lns, i, first), lns[i].r)]
=============================================================================
