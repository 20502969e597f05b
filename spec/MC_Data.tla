------------------------------ MODULE MC_Data ------------------------------
(***************************************************************************)
(* An author works on characters, locations and items of a project, and     *)
(* makes the data files from time to time, from one object that keeps its   *)
(* content tree, from new ones, or with the converter. The files are those  *)
(* of the project at the last successful time.                              *)
(***************************************************************************)
EXTENDS Data, Json, IOUtils, SequencesExt
CONSTANTS MaxSteps, MaxReplay
VARIABLES world,            \* lists of [id, x] by section: what there is
          held,             \* the same in the tree of the object that makes the files, in file order
          files, at, n, act, was
vars == <<world, held, files, at, n, act, was>>

SECTS == {"crs", "lcs", "its"}
None == [s \in SECTS |-> <<>>]
Entry(id, x) == [id |-> id, x |-> x]
World0 == [crs |-> <<Entry("1", "A")>>, lcs |-> <<>>, its |-> <<Entry("1", "A"), Entry("2", "A")>>]
HasId(l, id) == \E i \in DOMAIN l : l[i].id = id
Drop(l, id) == SelectSeq(l, LAMBDA e : e.id # id)
Put(l, id, x) == IF HasId(l, id) THEN Map(l, LAMBDA e : IF e.id = id THEN Entry(id, x) ELSE e) ELSE Append(l, Entry(id, x))
ToFront(l, id) == SelectSeq(l, LAMBDA e : e.id = id) \o Drop(l, id)
Edited(l, o) == CASE o = "drop" -> Drop(l, "1") [] o = "change" -> Put(l, "1", "B") [] o = "add" -> Put(l, "2", "B") [] o = "front" -> ToFront(l, "2")
Edits == {[k |-> s, o |-> o] : s \in SECTS, o \in {"drop", "change", "add", "front"}}
Makes == {[k |-> "make", o |-> o] : o \in {"same", "new", "convert", "fail"}}
Ops == Edits \cup Makes

\* bringing a tree up to date: entries gone from the project leave, known ones are changed in place, new ones join, and all are put in order
RECURSIVE Joined(_, _)
Joined(tree, l) == IF l = <<>> THEN tree ELSE Joined(Put(tree, Head(l).id, Head(l).x), Tail(l))
Merged(tree, l) ==
    LET kept == SelectSeq(tree, LAMBDA e : HasId(l, e.id))
        all == Joined(kept, l)
    IN [i \in DOMAIN l |-> CHOOSE e \in {all[j] : j \in DOMAIN all} : e.id = l[i].id]
UpTo(tree, w) == [s \in SECTS |-> Merged(tree[s], w[s])]

Init == world = World0 /\ held = None /\ files = None /\ at = None /\ n = 0 /\ act = [k |-> "start", o |-> ""] /\ was = None
Next == /\ n < MaxSteps /\ n' = n + 1 /\ was' = files
        /\ \E a \in Ops :
             /\ act' = a
             /\ IF a.k \in SECTS THEN world' = [world EXCEPT ![a.k] = Edited(@, a.o)] /\ UNCHANGED <<held, files, at>>
                ELSE /\ world' = world
                     /\ held' = IF a.o = "same" THEN UpTo(held, world) ELSE held
                     /\ IF a.o = "fail" THEN \E torn \in {files, None, [files EXCEPT !.crs = world.crs]} : files' = torn /\ at' = IF torn = files THEN at ELSE world
                        ELSE files' = UpTo(IF a.o = "same" THEN held ELSE None, world) /\ at' = world
Spec == Init /\ [][Next]_vars

UpToDate == act.k = "make" /\ act.o # "fail" => files = world /\ files = at
Unique == \A s \in SECTS : \A i, j \in DOMAIN files[s] : files[s][i].id = files[s][j].id => i = j
\* only making the files changes them
Frozen == act.k # "make" => files = was
Seqs == {q \in UNION {[1..i -> Ops] : i \in 1..MaxReplay} : q[Len(q)].k = "make"}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Seqs))
=============================================================================
