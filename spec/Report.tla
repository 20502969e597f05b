------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The user interfaces a conversion talks through.                          *)
(*   ui    "silent", "console", "boxes", "window", or "main"                *)
(*   s     what the interface has been told last: what, how (with its kind),*)
(*         status; geo the size of the window, opts the settings kept       *)
(* An action shows something at once (Boxes, Printed) or replaces what the  *)
(* window shows all the time (Labels).                                      *)
(***************************************************************************)
EXTENDS Base

UIs == {"silent", "console", "boxes", "window", "main"}
IsErr(m) == StartsWith(m, "!")
Body(m) == IF IsErr(m) THEN Strip(SubSeq(m, 2, Len(m))) ELSE m
Kind(m) == IF IsErr(m) THEN "error" ELSE "success"
None == [kind |-> "none", text |-> ""]
Say(k, m) == [kind |-> k, text |-> m]

Begin(ui, geo) == [ui |-> ui, what |-> "", how |-> None, status |-> "", geo |-> geo, opts |-> "", button |-> 0, gone |-> FALSE]

\* the next state
After(s, a) ==
    CASE a.k = "what" -> [s EXCEPT !.what = a.arg]
      [] a.k = "how" -> [s EXCEPT !.how = Say(Kind(a.arg), Body(a.arg))]
      [] a.k = "status" /\ s.ui = "main" -> [s EXCEPT !.status = a.arg, !.how = None]
      [] a.k = "resize" /\ s.ui = "main" -> [s EXCEPT !.geo = a.arg]
      [] a.k = "quit" /\ s.ui = "main" -> [s EXCEPT !.opts = s.geo, !.gone = TRUE]
      [] a.k = "again" /\ s.ui = "main" -> [Begin("main", IF s.opts = "" THEN s.geo ELSE s.opts) EXCEPT !.opts = s.opts]
      [] a.k = "button" /\ s.ui = "window" -> [s EXCEPT !.button = 1]
      [] OTHER -> s

\* what appears in front of the user because of the action, once
Appears(s, a) ==
    CASE a.k = "how" /\ s.ui \in {"boxes"} -> <<Say(Kind(a.arg), Body(a.arg))>>
      [] a.k = "how" /\ s.ui = "console" -> <<Say(Kind(a.arg), Body(a.arg))>>
      [] a.k = "how" /\ s.ui = "silent" /\ IsErr(a.arg) -> <<Say("error", Body(a.arg))>>
      [] a.k = "what" /\ s.ui = "console" -> <<Say("success", a.arg)>>
      [] a.k = "warn" /\ s.ui # "silent" -> <<Say("warning", a.arg)>>
      [] a.k = "ask" /\ s.ui # "silent" -> <<Say("question", a.arg)>>
      [] a.k = "error" /\ s.ui = "main" -> <<Say("error", a.arg)>>
      [] a.k = "info" /\ s.ui = "main" -> <<Say("success", a.arg)>>
      [] OTHER -> <<>>

\* what stands in the window all the time
Labels(s) ==
    CASE s.ui = "window" -> {x \in {Say("plain", s.what), s.how} : x.text # ""}
      [] s.ui = "main" -> {x \in {IF s.how = None THEN Say("plain", s.status) ELSE s.how} : x.text # ""}
      [] OTHER -> {}

\* the answer the program gets
Answer(s, a) == CASE a.k = "ask" -> IF s.ui = "silent" THEN "T" ELSE a.answer
                  [] a.k = "press" /\ s.ui = "window" -> IF s.button = 1 THEN "opened" ELSE "none"
                  [] OTHER -> ""
=============================================================================
