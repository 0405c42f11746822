------------------------- MODULE FluentLocalization -------------------------
(***************************************************************************)
(* A localization: the chain of bundles it loads and how requests fall     *)
(* back along it (C25, C26).                                               *)
(*                                                                         *)
(* For each locale l of the list, offer[l] = [sets: the resource sets the  *)
(* loader gives, in order, fails: whether it raises after giving them].    *)
(* A set is a sequence of resources (bodies).                              *)
(* State: asked (number of locales asked for), left (sets of the last one  *)
(* not yet loaded), loaded (bundles: [loc, reg]), broken (the loader has   *)
(* raised).                                                                *)
(***************************************************************************)
EXTENDS FluentBundle

Fresh == [asked |-> 0, left |-> <<>>, loaded |-> <<>>, broken |-> FALSE]

(* Resources are given as <<number, body>>. *)
RECURSIVE BundleOf(_, _, _)
BundleOf(set, i, B) == IF i > Len(set) THEN B ELSE BundleOf(set, i + 1, AddResource(B, set[i][2], FALSE, i, set[i][1]))

(* One step of loading: ask for the next locale, or load the next set.     *)
(* what: "load", "ask", "raise", "end".                                    *)
LoadStep(offer, st) ==
  IF st.left # <<>>
  THEN [what |-> "load", st |-> [st EXCEPT !.left = Tail(@), !.loaded = Append(@, [loc |-> st.asked, reg |-> BundleOf(Head(st.left), 1, EmptyBundle)])]]
  ELSE IF st.broken \/ (st.asked > 0 /\ offer[st.asked].fails) THEN [what |-> "raise", st |-> [st EXCEPT !.broken = TRUE]]
  ELSE IF st.asked < Len(offer) THEN [what |-> "ask", st |-> [st EXCEPT !.asked = @ + 1, !.left = offer[st.asked + 1].sets]]
  ELSE [what |-> "end", st |-> st]

(* The bundle at p answers a request for id if it has the message with a   *)
(* value; bodies are all resources.                                        *)
Answers(bodies, st, p, id) == Has(st.loaded[p].reg.msgs, id) /\ LET n == st.loaded[p].reg.msgs[id].node IN ValuePattern(bodies[n[1]][n[2]]) # <<>>

(* The whole search: [st: after it, at: bundle that answers (0: none), raised]. *)
RECURSIVE Search(_, _, _, _, _)
Search(offer, bodies, st, p, id) ==
  IF p <= Len(st.loaded) THEN IF Answers(bodies, st, p, id) THEN [st |-> st, at |-> p, raised |-> FALSE] ELSE Search(offer, bodies, st, p + 1, id)
  ELSE LET r == LoadStep(offer, st) IN
       CASE r.what = "raise" -> [st |-> r.st, at |-> 0, raised |-> TRUE]
         [] r.what = "end" -> [st |-> r.st, at |-> 0, raised |-> FALSE]
         [] OTHER -> Search(offer, bodies, r.st, p, id)
=============================================================================
