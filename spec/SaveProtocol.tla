---------------------------- MODULE SaveProtocol ----------------------------
(***************************************************************************)
(* How a project is saved: the file on disk becomes the backup, the new one *)
(* is written, then written again in its final form.  Any step may fail (at *)
(* most MaxFaults times per save), and the process may die between any two  *)
(* steps and while writing.  Versions are numbers; Bad is an incomplete     *)
(* file, None no file.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers

CONSTANTS MaxSaves,
          Rewrites,              \* TRUE: the new file is written twice (projects); FALSE: once (documents)
          RestoreAfterRewrite    \* TRUE: the backup is restored when the second writing fails, too
None == -2
Bad == -1
Complete(v) == v >= 0

VARIABLES main, bak,   \* what is on disk under the project's and the backup's name
          pc,          \* where the save is
          ver,         \* version in memory
          backedUp,    \* this save has renamed the old file
          kept,        \* latest version that must not be lost
          faults, told \* failures so far in this save; what the author has been told: "", "ok", "error"
vars == <<main, bak, pc, ver, backedUp, kept, faults, told>>

Init == /\ main \in {None, 0} /\ bak \in {None, 0, Bad}
        /\ pc = "idle" /\ ver = 0 /\ backedUp = FALSE /\ kept = main /\ faults = 0 /\ told = ""

Begin == /\ pc = "idle" /\ ver < MaxSaves
         /\ ver' = ver + 1 /\ pc' = "backup" /\ backedUp' = FALSE /\ faults' = 0 /\ told' = ""
         /\ UNCHANGED <<main, bak, kept>>
Fail(next) == faults = 0 /\ faults' = 1 /\ pc' = next
Backup == /\ pc = "backup"
          /\ \/ main = None /\ pc' = "write" /\ UNCHANGED <<main, bak, backedUp, faults, told>>
             \/ main # None /\ bak' = main /\ main' = None /\ backedUp' = TRUE /\ pc' = "write" /\ UNCHANGED <<faults, told>>
             \/ main # None /\ Fail("idle") /\ told' = "error" /\ UNCHANGED <<main, bak, backedUp>>
          /\ UNCHANGED <<ver, kept>>
\* the file is opened (and empty), filled, and complete
Open == pc = "write" /\ main' = Bad /\ pc' = "fill" /\ UNCHANGED <<bak, ver, backedUp, kept, faults, told>>
FailOpen == pc = "write" /\ Fail("restore") /\ UNCHANGED <<main, bak, ver, backedUp, kept, told>>
Fill == pc = "fill" /\ main' = ver /\ pc' = (IF Rewrites THEN "rewrite" ELSE "done") /\ UNCHANGED <<bak, ver, backedUp, kept, faults, told>>
FailFill == pc = "fill" /\ Fail("restore") /\ UNCHANGED <<main, bak, ver, backedUp, kept, told>>
Reopen == pc = "rewrite" /\ main' = Bad /\ pc' = "refill" /\ UNCHANGED <<bak, ver, backedUp, kept, faults, told>>
FailReopen == pc = "rewrite" /\ Fail(IF RestoreAfterRewrite THEN "restore" ELSE "report")
              /\ UNCHANGED <<main, bak, ver, backedUp, kept, told>>
Refill == pc = "refill" /\ main' = ver /\ pc' = "done" /\ UNCHANGED <<bak, ver, backedUp, kept, faults, told>>
FailRefill == pc = "refill" /\ Fail(IF RestoreAfterRewrite THEN "restore" ELSE "report")
              /\ UNCHANGED <<main, bak, ver, backedUp, kept, told>>
Restore == pc = "restore" /\ (IF backedUp THEN main' = bak /\ bak' = None ELSE UNCHANGED <<main, bak>>)
           /\ pc' = "report" /\ UNCHANGED <<ver, backedUp, kept, faults, told>>
Report == pc = "report" /\ pc' = "idle" /\ told' = "error" /\ UNCHANGED <<main, bak, ver, backedUp, kept, faults>>
Done == pc = "done" /\ pc' = "idle" /\ told' = "ok" /\ kept' = ver /\ UNCHANGED <<main, bak, ver, backedUp, faults>>
Die == pc # "dead" /\ pc' = "dead" /\ UNCHANGED <<main, bak, ver, backedUp, kept, faults, told>>
Next == Begin \/ Backup \/ Open \/ FailOpen \/ Fill \/ FailFill \/ Reopen \/ FailReopen \/ Refill \/ FailRefill
        \/ Restore \/ Report \/ Done \/ Die
Spec == Init /\ [][Next]_vars

\* a complete project, not older than the last one that was saved, is always on disk
Safe == Complete(kept) => (main >= kept \/ bak >= kept)
\* success is only claimed for a complete new file, and then the previous one is the backup
Truthful == told = "ok" => main = ver
\* after a failure the old project is back under its name
BackAfterFailure == (told = "error" /\ Complete(kept)) => Complete(main)
=============================================================================
