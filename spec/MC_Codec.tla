------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* Exhaustive check of the scene/chapter codec: one scene element and one   *)
(* chapter element of a project file, starting from every way a yWriter     *)
(* version may have left them, saved again and again with every value an    *)
(* application may set.  The same pairs (element, value) are written to a   *)
(* file and replayed on the program.                                        *)
(***************************************************************************)
EXTENDS Yw7, Json, IOUtils

Opt(tag, vals) == {<<>>} \cup {<<Leaf(tag, x)>> : x \in vals}
Mk(tag, id, parts) == Elem(tag, NULL, <<Leaf("ID", id)>> \o Concat(parts))

\* ------------------------------------------------ prior elements
StartPriors == {Mk("SCENE", "1", <<a, b, c, d, f>>) :
                  a \in Opt("SpecificDateTime", {NULL, "2020-02-29 13:05:07", "2021-02-29 10:00:00", "2019-01-01"}),
                  b \in Opt("SpecificDateMode", {"-1"}),
                  c \in Opt("Day", {NULL, "3", "x"}),
                  d \in Opt("Hour", {NULL, "7", "13"}),
                  f \in Opt("Minute", {"5", "59"})}
FieldsOpt(inner) == {<<>>} \cup {<<Elem("Fields", NULL, x)>> : x \in inner}
ScTypePriors == {Mk("SCENE", "1", <<a, b>>) :
                  a \in Opt("Unused", {"-1"}),
                  b \in FieldsOpt({<<>>, <<Leaf("Field_X", "7")>>}
                        \cup {<<Leaf("Field_SceneType", x)>> : x \in {NULL, "0", "1", "2", "3"}}
                        \cup {<<Leaf("Field_X", "7"), Leaf("Field_SceneType", x)>> : x \in {"0", "1", "2"}})}
ChTypePriors == {Mk("CHAPTER", "1", <<a, b, c>>) :
                  a \in Opt("Unused", {"-1"}),
                  b \in Opt("Type", {NULL, "0", "1"}),
                  c \in Opt("ChapterType", {NULL, "0", "1", "2", "3"})}
DnePriors == {Mk("SCENE", "1", <<a, b>>) : a \in Opt("ExportCondSpecific", {NULL}), b \in Opt("ExportWhenRTF", {"-1"})}

\* ------------------------------------------------ new values
St(d, t, y) == [date |-> d, time |-> t, day |-> y]
Starts == {St(NULL, NULL, NULL), St("", "", NULL), St(NULL, NULL, ""), St("1984-12-31", "23:59:58", NULL),
           St("0001-01-01", "00:00", NULL), St(NULL, NULL, "0"), St(NULL, "08:30:00", "12"), St(NULL, "08:30:00", NULL),
           St(NULL, "00:00:00", "")}
NewTypes == Types \cup {NULL}
Flags == {"T", "F", NULL}

VARIABLES what, e, prev, val
vars == <<what, e, prev, val>>

Init == \/ what = "start" /\ e \in StartPriors /\ prev = e /\ val = <<>>
        \/ what = "sctype" /\ e \in ScTypePriors /\ prev = e /\ val = <<>>
        \/ what = "chtype" /\ e \in ChTypePriors /\ prev = e /\ val = <<>>
        \/ what = "dne" /\ e \in DnePriors /\ prev = e /\ val = <<>>

SaveStart == what = "start" /\ \E s \in Starts : e' = WriteStart(e, s) /\ val' = <<s>>
SaveScType == what = "sctype" /\ \E x \in NewTypes : e' = WriteScType(e, x) /\ val' = <<x>>
SaveChType == what = "chtype" /\ \E x \in NewTypes : e' = WriteChType(e, x) /\ val' = <<x>>
SaveDne == what = "dne" /\ \E x \in Flags : e' = WriteDne(e, x) /\ val' = <<x>>
Next == (SaveStart \/ SaveScType \/ SaveChType \/ SaveDne) /\ prev' = e /\ UNCHANGED what
Spec == Init /\ [][Next]_vars

\* a saved value reads back as it was meant
ReadsBack ==
    val # <<>> =>
      CASE what = "start" -> TStart(ReadStart(e)) = TStart(StartMeant(prev, val[1]))
        [] what = "sctype" -> ReadScType(e) = TypeOrNormal(val[1])
        [] what = "chtype" -> ReadChType(e) = TypeOrNormal(val[1])
        [] OTHER -> ReadDne(e) = IF val[1] = NULL THEN ReadDne(prev) ELSE val[1]
\* it is laid down the way yWriter lays it down: with either a date or a day, and with seconds where there were some
Layout ==
    val # <<>> =>
      CASE what = "sctype" -> /\ HasKid(e, "Unused") = ScTypeCode(TypeOrNormal(val[1])).unused
                              /\ SubText(e, "Fields", "Field_SceneType") = ScTypeCode(TypeOrNormal(val[1])).field
        [] what = "chtype" -> /\ HasKid(e, "Unused") = ChTypeCode(TypeOrNormal(val[1])).unused
                              /\ KidText(e, "Type") = ChTypeCode(TypeOrNormal(val[1])).type
                              /\ KidText(e, "ChapterType") = ChTypeCode(TypeOrNormal(val[1])).chtype
        [] what = "start" -> StartLaidDown(prev, e, val[1])
        [] OTHER -> TRUE
\* fields of others survive
ForeignKept == SubText(e, "Fields", "Field_X") = SubText(prev, "Fields", "Field_X")
\* reading what was read and saving it changes nothing any more
Idempotent ==
    what = "start" /\ val # <<>> =>
       LET r == ReadStart(e) IN TStart(ReadStart(WriteStart(e, r))) = TStart(r)

\* ------------------------------------------------ the cases for the program
Cases == {[what |-> "start", e |-> x, val |-> s] : x \in StartPriors, s \in Starts}
         \cup {[what |-> "sctype", e |-> x, val |-> s] : x \in ScTypePriors, s \in NewTypes}
         \cup {[what |-> "chtype", e |-> x, val |-> s] : x \in ChTypePriors, s \in NewTypes}
         \cup {[what |-> "dne", e |-> x, val |-> s] : x \in DnePriors, s \in Flags}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
