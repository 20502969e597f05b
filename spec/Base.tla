------------------------------- MODULE Base -------------------------------
(* Shared vocabulary of all modules of the PyWriter specification.         *)
(* Attribute values are opaque strings; NULL stands for "has no value".    *)
(* Numbers and booleans of the program are carried as strings, too, so any *)
(* two values are comparable.                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NULL  == "\\N"          \* an attribute without a value
NOLST == <<"\\N">>      \* a list attribute without a value

\* "No value" and "empty" are the same thing once they are on disk.
T(x) == IF x = "" THEN NULL ELSE x
TL(l) == IF l = <<>> THEN NOLST ELSE l
LST(l) == IF l = NOLST THEN <<>> ELSE l

Bool(b) == IF b THEN "T" ELSE "F"
FT(x) == IF x = NULL THEN "F" ELSE x     \* a flag that has never been set is off

Has(r, k) == k \in DOMAIN r
Get(r, k, dflt) == IF k \in DOMAIN r THEN r[k] ELSE dflt

Range2(s) == {s[i] : i \in DOMAIN s}
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
IndexOf(x, s) == CHOOSE i \in DOMAIN s : s[i] = x /\ \A j \in DOMAIN s : j < i => s[j] # x
Filter(s, P(_)) == SelectSeq(s, P)
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
NoDup(s) == Cardinality(Range2(s)) = Len(s)

\* concatenation of a sequence of sequences (divide and conquer keeps the recursion flat)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET m == Len(ss) \div 2
                   IN Concat(SubSeq(ss, 1, m)) \o Concat(SubSeq(ss, m + 1, Len(ss)))

\* concatenation of a sequence of strings
RECURSIVE Join0(_)
Join0(ss) == IF ss = <<>> THEN ""
             ELSE IF Len(ss) = 1 THEN ss[1]
             ELSE LET m == Len(ss) \div 2
                  IN Join0(SubSeq(ss, 1, m)) \o Join0(SubSeq(ss, m + 1, Len(ss)))
Join(ss, sep) == Join0([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])

\* order-preserving removal of repeated elements
RECURSIVE DedupFrom(_, _, _)
DedupFrom(s, i, acc) == IF i > Len(s) THEN acc
                        ELSE DedupFrom(s, i + 1, IF InSeq(s[i], acc) THEN acc ELSE Append(acc, s[i]))
Dedup(s) == DedupFrom(s, 1, <<>>)

-----------------------------------------------------------------------------
(* Strings as sequences of characters (TLC extends Len, SubSeq and \o to strings) *)
Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Digits == {"0","1","2","3","4","5","6","7","8","9"}
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
White == {" ", "\t", "\n", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　"}
IsWS(c) == c \in White
\* position of the first occurrence of p in s at or after i, 0 if there is none
FindFrom(s, p, i) ==
    LET S == {j \in i..(Len(s) - Len(p) + 1) : SubSeq(s, j, j + Len(p) - 1) = p}
    IN IF S = {} THEN 0 ELSE Min(S)

LStrip(s) == LET S == {i \in 1..Len(s) : ~IsWS(Ch(s, i))}
             IN IF S = {} THEN "" ELSE SubSeq(s, Min(S), Len(s))
RStrip(s) == LET S == {i \in 1..Len(s) : ~IsWS(Ch(s, i))}
             IN IF S = {} THEN "" ELSE SubSeq(s, 1, Max(S))
Strip(s) == LStrip(RStrip(s))

\* split at a one-character separator; always at least one part
SplitAt(s, c) ==
    LET cuts == SetToSortSeq({i \in 1..Len(s) : Ch(s, i) = c}, <)
        n == Len(cuts)
        From(k) == IF k = 1 THEN 1 ELSE cuts[k - 1] + 1
        To(k) == IF k = n + 1 THEN Len(s) ELSE cuts[k] - 1
    IN [k \in 1..(n + 1) |-> SubSeq(s, From(k), To(k))]

\* a list kept in one string: parts are trimmed, empty and repeated parts vanish
StringToList(s) == Dedup(SelectSeq(Map(SplitAt(s, ";"), Strip), LAMBDA e : e # ""))
ListToString(l) == Join(l, ";")

DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0
            ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal(Ch(s, Len(s)))
\* strings the program accepts as whole numbers (sign and surrounding blanks allowed)
IsInt(s) == s # NULL /\
            LET t == Strip(s)
            IN \/ AllDigits(t)
               \/ Len(t) > 1 /\ Ch(t, 1) \in {"-", "+"} /\ AllDigits(SubSeq(t, 2, Len(t)))
IntOf(s) == LET t == Strip(s)
            IN IF Ch(t, 1) = "-" THEN 0 - NatOf(SubSeq(t, 2, Len(t)))
               ELSE IF Ch(t, 1) = "+" THEN NatOf(SubSeq(t, 2, Len(t))) ELSE NatOf(t)
\* pad with zeros on the left up to two places
Pad2(s) == IF Len(s) = 0 THEN "00" ELSE IF Len(s) = 1 THEN "0" \o s ELSE s

\* first unused positive number, as a string
FreshId(ids) == ToString(CHOOSE n \in 1..(Cardinality(ids) + 1) :
                    /\ ToString(n) \notin ids
                    /\ \A m \in 1..(n - 1) : ToString(m) \in ids)
=============================================================================
