---------------------------- MODULE FluentBundle ----------------------------
(***************************************************************************)
(* The registry of a bundle (C15, C23): what ids denote after a history of *)
(* additions.  A bundle B has msgs and terms, functions from names to      *)
(* entries [gen, node: its resource and index]; gen numbers the registrations, and identifies the  *)
(* entry's patterns.                                                       *)
(***************************************************************************)
EXTENDS FluentResolver

EmptyBundle == [msgs |-> NoOpts, terms |-> NoOpts]

Put(f, name, e, over) == IF Has(f, name) /\ ~over THEN f ELSE (name :> e) @@ f

RECURSIVE AddEntries(_, _, _, _, _, _)
AddEntries(B, body, i, over, gen, r) ==
  IF i > Len(body) THEN B
  ELSE LET x == body[i]
           e == [gen |-> gen + i, node |-> <<r, i>>]
           B1 == CASE x.t = "Message" -> [B EXCEPT !.msgs = Put(@, Name(x), e, over)]
                   [] x.t = "Term" -> [B EXCEPT !.terms = Put(@, Name(x), e, over)]
                   [] OTHER -> B
       IN AddEntries(B1, body, i + 1, over, gen, r)

(* gen of the k-th addition's entries starts at 1000 * k *)
AddResource(B, body, over, k, r) == AddEntries(B, body, 1, over, 1000 * k, r)
=============================================================================
