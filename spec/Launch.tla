------------------------------- MODULE Launch -------------------------------
(***************************************************************************)
(* Opening a document with the desktop's application.                       *)
(*   path    the document       has   the ways of opening the system offers  *)
(* A way of opening either takes the document or refuses it.                *)
(***************************************************************************)
EXTENDS Base

Ways == <<"startfile", "xdg-open", "open">>      \* in the order of preference
\* a system call that refuses the document is followed by the next way; a program that has been started is not
Works(has, w) == has[w] = "works" \/ (w # "startfile" /\ has[w] = "refuses")
Chosen(has) == LET S == {i \in DOMAIN Ways : Works(has, Ways[i])} IN IF S = {} THEN 0 ELSE Min(S)
\* what is started, with which arguments
Started(has, path) == IF Chosen(has) = 0 THEN <<>> ELSE <<[way |-> Ways[Chosen(has)], args |-> <<path>>]>>
=============================================================================
