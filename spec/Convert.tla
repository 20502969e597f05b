------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Conversions: which job a converter picks, what it does to the folder,    *)
(* and what it tells.                                                       *)
(*   folder   a function from names to [c, h]: class and content of a file  *)
(*            c: "prj"  a complete project      "work", "outline"  a text   *)
(*            document without/with third-level headings   "sheet"          *)
(*            "bad" anything defective          "dir"  a folder             *)
(*   conv     "both" the universal converter, "import", "export"            *)
(***************************************************************************)
EXTENDS Base

TEXTKINDS == {"_manuscript", "_notes", "_todo", "_proof", "_scenes", "_chapters", "_parts", "_characters", "_items", "_locations"}
SHEETKINDS == {"_charlist", "_loclist", "_itemlist", "_scenelist"}
IMPORTKINDS == TEXTKINDS \cup SHEETKINDS
ONEWAY == {"_xref", "_brf_synopsis"}       \* never written back
EXPORTKINDS == IMPORTKINDS \cup ONEWAY \cup {""}
ExtOf(kind) == IF kind \in SHEETKINDS THEN ".ods" ELSE ".odt"

IsFile(f, name) == name \in DOMAIN f /\ f[name].c # "dir"
ClassOf(f, name) == IF name \in DOMAIN f THEN f[name].c ELSE "none"
\* name and extension
TailStart(p) == LET S == {i \in 1..Len(p) : Ch(p, i) = "/"} IN IF S = {} THEN 1 ELSE Max(S) + 1
DotAt(p) == LET a == TailStart(p)
                lead == {i \in a..Len(p) : \A j \in a..i : Ch(p, j) = "."}      \* leading dots are part of the name
                S == {i \in a..Len(p) : Ch(p, i) = "." /\ i \notin lead}
            IN IF S = {} THEN Len(p) + 1 ELSE Max(S)
Stem(p) == SubSeq(p, 1, DotAt(p) - 1)
Ext(p) == SubSeq(p, DotAt(p), Len(p))
Less(p, tail) == SubSeq(p, 1, Len(p) - Len(tail))
Locked(f, name) == IsFile(f, name \o ".lock")

KindOf(path) == LET S == {k \in IMPORTKINDS : EndsWith(path, k \o ExtOf(k))} IN IF S = {} THEN NULL ELSE CHOOSE k \in S : TRUE
None == [job |-> "none", kind |-> NULL, target |-> NULL]
\* the job for a source
Job(conv, f, path, suffix) ==
    IF ~IsFile(f, path) THEN None
    ELSE IF Ext(path) = ".yw7"
         THEN IF conv \in {"both", "export"} /\ suffix \in EXPORTKINDS
              THEN [job |-> "export", kind |-> suffix, target |-> Stem(path) \o suffix \o ExtOf(suffix)] ELSE None
    ELSE IF conv = "export" THEN None
    ELSE IF KindOf(path) # NULL
         THEN LET k == KindOf(path) t == Less(path, k \o ExtOf(k)) \o ".yw7"
              IN IF IsFile(f, t) THEN [job |-> "import", kind |-> k, target |-> t] ELSE None
    ELSE IF EndsWith(path, ".odt") /\ f[path].c \in {"work", "outline"} /\ \A s \in ONEWAY : ~EndsWith(Stem(path), s)
         THEN [job |-> "create", kind |-> f[path].c, target |-> Stem(path) \o ".yw7"]
    ELSE None

\* whether it can succeed, given the answer to the question whether to overwrite
CanDo(f, path, j, yes) ==
    CASE j.job = "none" -> FALSE
      [] j.job = "export" -> f[path].c = "prj" /\ ~Locked(f, path) /\ ClassOf(f, j.target) # "dir" /\ (j.target \in DOMAIN f => yes)
      [] j.job = "import" -> f[path].c \in (IF j.kind \in SHEETKINDS THEN {"sheet"} ELSE {"work", "outline"})
                             /\ f[j.target].c = "prj" /\ yes /\ ~Locked(f, j.target)
      [] j.job = "create" -> j.target \notin DOMAIN f /\ ~Locked(f, j.target)
MadeBy(j) == IF j.job = "export" THEN (IF j.kind \in SHEETKINDS THEN {"sheet"} ELSE {"work", "outline"}) ELSE {"prj"}

\* the folder afterwards: the target is new, what it was before is the backup
After(f, j, c, h) ==
    (j.target :> [c |-> c, h |-> h])
    @@ (IF j.target \in DOMAIN f THEN (j.target \o ".bak") :> f[j.target] ELSE j.target :> [c |-> c, h |-> h])
    @@ f
=============================================================================
