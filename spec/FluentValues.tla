---------------------------- MODULE FluentValues ----------------------------
(***************************************************************************)
(* Wrapping of values for formatting (C28).  A value here is a record      *)
(* v (see FluentResolver), py (native kind: "int", "float", "Decimal",     *)
(* "date", "datetime", "none", or anything else), lit (its exact value,    *)
(* with time zone and fold).                                               *)
(***************************************************************************)
EXTENDS FluentResolver, FluentDates

Numeric == {"int", "float", "Decimal"}
Temporal == {"date", "datetime"}

(* Wrapping x with the options kw by how = "number", "date" or "native"    *)
(* (as an argument of a message): <<the result>>, or <<>> if refused.      *)
Merged(x, kw) == [x EXCEPT !.v.f = TRUE, !.v.o = kw @@ (IF x.v.f THEN x.v.o ELSE NoOpts)]
Wrap(how, x, kw) ==
  CASE how = "native" -> <<IF x.py \in Numeric \cup Temporal THEN Merged(x, NoOpts) ELSE x>>
    [] x.py = "none" -> <<x>>
    [] how = "number" -> IF x.py \notin Numeric THEN <<>>
                         ELSE IF kw # NoOpts /\ BadNumberOptions(IF x.v.f THEN x.v.o ELSE NoOpts, kw) # "" THEN <<>> ELSE <<Merged(x, kw)>>
    [] how = "date" -> IF x.py \notin Temporal THEN <<>>
                       ELSE IF BadDateOptions(x.py = "datetime", kw) # "" THEN <<>> ELSE <<Merged(x, kw)>>
(* An object that is a Fluent value already is not copied if there is      *)
(* nothing to change.                                                      *)
=============================================================================
