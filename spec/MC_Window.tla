----------------------------- MODULE MC_Window -----------------------------
(* Everything a user can do with the main window, in any order; files change behind its back. *)
EXTENDS Window, Json, IOUtils
CONSTANTS MaxSteps, MaxReplay
VARIABLES w, files, n, act, ret, was
vars == <<w, files, n, act, ret, was>>
F(c, t, a) == [c |-> c, title |-> t, author |-> a]
Good == [a |-> F("good", "A", "Ann"), b |-> F("good", NULL, NULL)]
Files0 == ("a.yw7" :> Good.a) @@ ("b.yw7" :> Good.b) @@ ("x.yw7" :> F("bad", "X", "X")) @@ ("l.yw7" :> F("locked", "L", "L"))
A(k, arg, answer) == [k |-> k, arg |-> arg, answer |-> answer]
Actions == {A("open", x, "") : x \in {"a.yw7", "b.yw7", "x.yw7", "l.yw7", "none.yw7", ""}}
           \cup {A("open", x, y) : x \in {"", "none.yw7"}, y \in {"b.yw7", "x.yw7"}}
           \cup {A(k, "", "") : k \in {"close", "restore", "save"}}
           \cup {A("tell", m, "") : m \in {"! failed !", "done"}} \cup {A("status", m, "") : m \in {"12 words"}}
           \cup {A("turn", x, c) : x \in {"a.yw7", "b.yw7"}, c \in {"bad", "locked"}} \cup {A("fault", "a.yw7", "")}

Do(ww, ff, a) ==
    CASE a.k = "open" -> Opened(ww, ff, a.arg, a.answer, TRUE)
      [] a.k = "fault" -> Opened(ww, ff, a.arg, a.answer, FALSE)
      [] a.k = "close" -> Closed(ww)
      [] a.k = "restore" -> Restored(ww)
      [] a.k = "tell" -> Told(ww, a.arg)
      [] a.k = "status" -> Status(ww, a.arg)
      [] OTHER -> ww
Init == w = Start("") /\ files = Files0 /\ n = 0 /\ act = A("start", "", "") /\ ret = FALSE /\ was = w
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E a \in Actions : /\ act' = a /\ w' = Do(w, files, a) /\ was' = w
                              /\ ret' = (a.k \in {"open", "fault"} /\ w'.open # "" /\ Picked(files, a.arg, a.answer) # "")
                              /\ files' = IF a.k = "turn" THEN [files EXCEPT ![a.arg].c = a.answer] ELSE files
Spec == Init /\ [][Next]_vars

\* all parts of the window agree on what is open
Consistent == /\ (w.open # "") = w.menu /\ w.path = w.open
              /\ (w.open = "") = (w.title = APP)
              /\ w.open # "" => w.title = TitleOf(files[w.open])
\* what is open has been opened, and was good
Earned == w.open # "" /\ w.open # was.open => act.k = "open" /\ files[w.open].c = "good" /\ ret
NoHalf == act.k \in {"open", "fault"} /\ ~ret /\ Picked(files, act.arg, act.answer) # "" => w.open = "" /\ w.colour = "red"
\* giving up on the dialog changes nothing
Cancelled == act.k = "open" /\ Picked(files, act.arg, act.answer) = "" => w = Restored(was)
\* an old project's status never outlives it
Fresh == w.open # was.open /\ was.open # "" => w.kept = ""
Seqs == UNION {[1..i -> Actions] : i \in 1..MaxReplay}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Seqs))
=============================================================================
