------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* The main window: which project is open, and what is shown of it.         *)
(*   w      open    name of the open project's file, "" if there is none    *)
(*          title   title line     path   path bar                          *)
(*          text, colour   what the status bar shows, kept: its lasting text*)
(*          menu    whether a project can be closed                         *)
(*          last    the project opened last                                 *)
(*   files  name -> [c, title, author]; c: "good", "locked", "bad"          *)
(***************************************************************************)
EXTENDS Base

APP == "App"
Start(last) == [open |-> "", title |-> APP, path |-> "", text |-> "", colour |-> "normal", kept |-> "", menu |-> FALSE, last |-> last]

TitleOf(f) == (IF T(f.title) = NULL THEN "Untitled project" ELSE f.title) \o " by " \o (IF T(f.author) = NULL THEN "Unknown author" ELSE f.author) \o " - " \o APP
Restored(w) == [w EXCEPT !.text = w.kept, !.colour = "normal"]
Status(w, m) == [w EXCEPT !.text = m, !.kept = m, !.colour = "normal"]
Told(w, m) == IF StartsWith(m, "!") THEN [w EXCEPT !.text = Strip(SubSeq(m, 2, Len(m))), !.colour = "red"] ELSE [w EXCEPT !.text = m, !.colour = "green"]
Closed(w) == [w EXCEPT !.open = "", !.title = APP, !.path = "", !.text = "", !.kept = "", !.colour = "normal", !.menu = FALSE]

\* the file to open: the one asked for, or the one picked in a dialog
Asks(files, arg) == arg \notin DOMAIN files
Picked(files, arg, answer) == IF Asks(files, arg) THEN answer ELSE arg
Shown2(w, name, f) == [w EXCEPT !.open = name, !.path = name, !.title = TitleOf(f), !.menu = TRUE, !.last = name]
\* opening; what the error message says is left open
Opened(w, files, arg, answer, readable) ==
    LET name == Picked(files, arg, answer)
        v == IF w.open = "" THEN Restored(w) ELSE Closed(w)
    IN IF name = "" THEN Restored(w)
       ELSE IF readable /\ name \in DOMAIN files /\ files[name].c = "good" THEN Shown2(v, name, files[name])
       ELSE [Closed(v) EXCEPT !.colour = "red", !.text = "?", !.last = name]
=============================================================================
