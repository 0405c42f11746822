---------------------------- MODULE FluentLocale ----------------------------
(* The locale a bundle formats by: it tries its tags in order, and takes    *)
(* the first that the locale data (a function of tags) knows; if there is   *)
(* none, the default of the environment.                                    *)
EXTENDS Integers, Sequences

Default == "(default)"
KnownTags(table) == DOMAIN table \ {Default}

(* The search, a step at a time: how many tags were tried, and the outcome. *)
Searching == [tried |-> 0, found |-> ""]
TryNext(table, tags, s) ==
  IF s.tried = Len(tags) THEN [s EXCEPT !.found = Default]
  ELSE [tried |-> s.tried + 1, found |-> IF tags[s.tried + 1] \in KnownTags(table) THEN tags[s.tried + 1] ELSE ""]
RECURSIVE SearchFrom(_, _, _)
SearchFrom(table, tags, s) == IF s.found # "" THEN s.found ELSE SearchFrom(table, tags, TryNext(table, tags, s))
LocaleFor(table, tags) == SearchFrom(table, tags, Searching)
=============================================================================
