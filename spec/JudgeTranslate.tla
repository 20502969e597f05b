---------------------------- MODULE JudgeTranslate ----------------------------
(* Trace validation of recorded work with the translation tools. *)
EXTENDS Translate, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, was
vars == <<t, l, was>>
Ev == Traces[t].ev[l]
Now == Ev.st
Report(fs) == \A f \in fs : PrintT("@BAD " \o ToString(t) \o " " \o ToString(l) \o " translate." \o f)
FILES == {"pot", "po_de", "po_fr", "json_de", "json_fr", "mo_de", "mo_fr"}
Msgs(f) == {f.tab[i].m : i \in DOMAIN f.tab}
Once(f) == Cardinality(Msgs(f)) = Len(f.tab)
SrcSet(st) == {st.src[i] : i \in DOMAIN st.src}
Touched(ok) == {f \in FILES \ ok : Now[f].raw # was[f].raw}
BackedUp(f) == was[f].raw = "" \/ Now[f].bak = was[f].raw
\* if even restoring fails, the former file is at least kept under its other name, and the failure is not concealed
Kept(f) == Now[f].raw = was[f].raw \/ was[f].raw = "" \/ (Ev.out # "ok" /\ Now[f].raw = "" /\ Now[f].bak = was[f].raw)
Tabl(f) == IF f.raw = "" \/ ~f.ok THEN None ELSE TabOf(f.tab)
Is(e) == l <= Len(Traces[t].ev) /\ Ev.ev = e /\ l' = l + 1 /\ t' = t /\ was' = Ev.st

Init == t \in 1..Len(Traces) /\ l = 1 /\ was = Traces[t].ev[1].st
Start == Is("start")
\* a developer, a translator, or someone with another project is at work
Work == Is("work")
NewPot == Now.pot.ok /\ Msgs(Now.pot) = SrcSet(was) /\ Once(Now.pot)
Scan == /\ Is("scan")
        /\ Report({"scan.touched" : f \in Touched({"pot"})} \cup
             (IF ~Ev.hit /\ ~Ev.bad
              THEN (IF Ev.out = "ok" /\ NewPot THEN {} ELSE {"scan.template"}) \cup (IF BackedUp("pot") THEN {} ELSE {"scan.backup"})
              ELSE (IF NewPot \/ Kept("pot") THEN {} ELSE {"scan.lost"})
                   \cup (IF ~NewPot /\ Ev.out = "ok" /\ ~Ev.told THEN {"scan.silent"} ELSE {})))
PoFile == "po_" \o Ev.lang
DictFile == "json_" \o Ev.lang
Shared == Ev.shared
Update ==
    /\ Is("update")
    /\ LET pot == Msgs(was.pot)
           oldPo == Tabl(was[PoFile]) oldDict == Tabl(was[DictFile])
           newPo(d) == UpdatedPo(pot, oldPo, d, Shared)
           newDict(d) == UpdatedDict(oldPo, d)
           PoIs(d) == Now[PoFile].ok /\ Once(Now[PoFile]) /\ TabOf(Now[PoFile].tab) = newPo(d) /\ Now[PoFile].raw # ""
           DictIs(d) == Now[DictFile].ok /\ Now[DictFile].raw # "" /\ TabOf(Now[DictFile].tab) = newDict(d)
           SameFile(f) == Now[f].raw = was[f].raw
       IN Report({"update.touched" : f \in Touched({PoFile, DictFile})}
            \cup (IF was.pot.raw = "" \/ ~was.pot.ok
                  THEN (IF Ev.out # "ok" /\ SameFile(PoFile) /\ SameFile(DictFile) THEN {} ELSE {"update.without-template"})
                  ELSE IF ~Ev.hit
                  THEN (IF Ev.out # "ok" THEN {"update.outcome"}
                        ELSE (IF PoIs(oldDict) THEN {} ELSE {"update.translations"})
                             \cup (IF Shared THEN (IF DictIs(oldDict) THEN {} ELSE {"update.dictionary"}) ELSE IF SameFile(DictFile) THEN {} ELSE {"update.dictionary-touched"})
                             \cup (IF Now[PoFile].date = was.pot.date THEN {} ELSE {"update.date"})
                             \cup (IF Ev.ret = Complete(newPo(oldDict)) THEN {} ELSE {"update.report"})
                             \cup (IF BackedUp(PoFile) /\ (Shared => BackedUp(DictFile)) THEN {} ELSE {"update.backup"}))
                  ELSE LET poNew == PoIs(oldDict) \/ PoIs(None)
                           dictNew == ~Shared \/ DictIs(oldDict) \/ (DictIs(None) /\ BackedUp(DictFile))
                       IN (IF poNew \/ Kept(PoFile) THEN {} ELSE {"update.lost"})
                          \cup (IF dictNew \/ Kept(DictFile) THEN {} ELSE {"update.dictionary-lost"})
                          \cup (IF Ev.out = "ok" /\ ~Ev.told /\ ~(poNew /\ dictNew) THEN {"update.silent"} ELSE {})
                          \cup (IF Ev.out = "ok" /\ Ev.ret /\ ~(poNew /\ Complete(TabOf(Now[PoFile].tab))) THEN {"update.pretended"} ELSE {})))
Compile ==
    /\ Is("compile")
    /\ LET m == "mo_" \o Ev.lang
           cat == Filled(Tabl(was[PoFile]))
       IN Report({"compile.touched" : f \in Touched({m})}
            \cup (IF Ev.out # "ok" \/ ~Now[m].ok \/ TabOf(Now[m].tab) # cat \/ ~Once(Now[m]) THEN {"compile.catalogue"} ELSE {})
            \cup {"compile.shown" : i \in {i \in DOMAIN Ev.shows : Ev.shows[i].t # Shown2(cat, Ev.shows[i].m)}})
\* a catalogue is compiled from a file somebody has written with another program
Foreign2 ==
    /\ Is("foreign")
    /\ Report((IF Ev.out = "ok" /\ Ev.ok /\ TabOf(Ev.tab) = CatalogueOf(Ev.entries) /\ Once([tab |-> Ev.tab]) THEN {} ELSE {"foreign.catalogue"})
              \cup {"foreign.touched" : f \in Touched({})})
Next == Start \/ Work \/ Scan \/ Update \/ Compile \/ Foreign2
Spec == Init /\ [][Next]_vars
=============================================================================
