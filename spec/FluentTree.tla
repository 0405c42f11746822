----------------------------- MODULE FluentTree -----------------------------
(***************************************************************************)
(* AST nodes as objects in a heap (C10, C11, C12).  A heap H is a sequence *)
(* of objects [c: "node", "list", "dict" or "tuple", t: type, f: fields in *)
(* order, as pairs <<name, value>>; the items of a list have the name ""]. *)
(* A value is [k |-> "r", i |-> object], a scalar [k |-> "s" (string), "i" *)
(* (integer), "b" (boolean), ...], or none, [k |-> "0"].                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Ref(i) == [k |-> "r", i |-> i]
None == [k |-> "0"]
IsRef(v) == v.k = "r"
IsNode(H, v) == IsRef(v) /\ H[v.i].c = "node"
IsList(H, v) == IsRef(v) /\ H[v.i].c = "list"

FieldNames(o) == {o.f[i][1] : i \in 1..Len(o.f)}
Field(o, n) == o.f[CHOOSE i \in 1..Len(o.f) : o.f[i][1] = n][2]

(* Objects reachable from a value. *)
Children(H, i) == {H[i].f[j][2].i : j \in {j \in 1..Len(H[i].f) : IsRef(H[i].f[j][2])}}
RECURSIVE Grow(_, _, _)
Grow(H, seen, new) == IF new = {} THEN seen ELSE LET s == seen \cup new IN Grow(H, s, UNION {Children(H, x) : x \in new} \ s)
Reach(H, v) == IF IsRef(v) THEN Grow(H, {}, {v.i}) ELSE {}

(***************************************************************************)
(* Structural equality, apart from the ignored fields.                     *)
(***************************************************************************)
RECURSIVE Same(_, _, _, _)
Same(H, a, b, ign) ==
  IF a.k # b.k THEN FALSE
  ELSE IF ~IsRef(a) THEN a = b
  ELSE LET x == H[a.i] y == H[b.i] IN
       /\ x.c = y.c
       /\ IF x.c \in {"list", "tuple"}
          THEN Len(x.f) = Len(y.f) /\ \A i \in 1..Len(x.f) : Same(H, x.f[i][2], y.f[i][2], ign)
          ELSE /\ x.t = y.t
               /\ FieldNames(x) \ ign = FieldNames(y) \ ign
               /\ \A n \in FieldNames(x) \ ign : Same(H, Field(x, n), Field(y, n), ign)

(* A deep copy: the same in every field, and no mutable object in common. *)
IsClone(H, a, b) == Same(H, a, b, {}) /\ Reach(H, a) \cap Reach(H, b) = {}

(***************************************************************************)
(* JSON data: a dict with the node's fields and its type.  A conversion    *)
(* hook (wrap) makes of it: for the types in wrap.cut, the value there;    *)
(* else, if wrap.name is not "", a dict with the data under that name.     *)
(***************************************************************************)
RECURSIVE IsJson(_, _, _, _), IsData(_, _, _, _)
IsData(H, a, j, wrap) ==
  /\ IsRef(j) /\ H[j.i].c = "dict"
  /\ LET x == H[a.i] d == H[j.i] IN
     /\ FieldNames(d) = FieldNames(x) \cup {"type"} /\ Len(d.f) = Cardinality(FieldNames(d))
     /\ Field(d, "type") = [k |-> "s", s |-> x.t]
     /\ \A n \in FieldNames(x) : IsJson(H, Field(x, n), Field(d, n), wrap)
IsJson(H, a, j, wrap) ==
  IF ~IsRef(a) THEN a = j /\ a.k \in {"0", "s", "i", "b"}
  ELSE IF H[a.i].c = "node"
  THEN IF H[a.i].t \in DOMAIN wrap.cut THEN j = wrap.cut[H[a.i].t]
       ELSE IF wrap.name = "" THEN IsData(H, a, j, wrap)
       ELSE IsRef(j) /\ H[j.i].c = "dict" /\ FieldNames(H[j.i]) = {wrap.name} /\ IsData(H, a, Field(H[j.i], wrap.name), wrap)
  ELSE IsRef(j) /\ H[j.i].c = "list" /\ Len(H[j.i].f) = Len(H[a.i].f) /\ \A i \in 1..Len(H[a.i].f) : IsJson(H, H[a.i].f[i][2], H[j.i].f[i][2], wrap)

(* Nodes in the order in which their data is complete: children first. *)
RECURSIVE PostOrder(_, _)
PostOrder(H, v) ==
  IF ~IsRef(v) THEN <<>>
  ELSE FlattenSeq([i \in 1..Len(H[v.i].f) |-> PostOrder(H, H[v.i].f[i][2])]) \o (IF H[v.i].c = "node" THEN <<v.i>> ELSE <<>>)

(***************************************************************************)
(* Visiting: a machine with a stack of values still to visit.  hs gives,   *)
(* for the node types with a handler, whether it descends; of the others   *)
(* the fields are visited.  Next1(...) is the next node met, with the      *)
(* stack after it: <<node, stack>>, or <<0, <<>>>> at the end.             *)
(***************************************************************************)
Values(o) == [i \in 1..Len(o.f) |-> o.f[i][2]]
Handled(H, i, hs) == H[i].t \in DOMAIN hs
Below(H, i, hs) == IF Handled(H, i, hs) /\ ~hs[H[i].t] THEN <<>> ELSE Values(H[i])
RECURSIVE NextVisit(_, _, _)
NextVisit(H, stack, hs) ==
  IF stack = <<>> THEN <<0, <<>>>>
  ELSE LET v == Head(stack) rest == Tail(stack) IN
       IF IsNode(H, v) THEN <<v.i, Below(H, v.i, hs) \o rest>>
       ELSE IF IsList(H, v) THEN NextVisit(H, Values(H[v.i]) \o rest, hs)
       ELSE NextVisit(H, rest, hs)
(* The same as a recursive definition. *)
RECURSIVE PreOrder(_, _, _)
PreOrder(H, v, hs) ==
  IF IsNode(H, v) THEN <<v.i>> \o (LET b == Below(H, v.i, hs) IN FlattenSeq([i \in 1..Len(b) |-> PreOrder(H, b[i], hs)]))
  ELSE IF IsList(H, v) THEN FlattenSeq([i \in 1..Len(H[v.i].f) |-> PreOrder(H, H[v.i].f[i][2], hs)])
  ELSE <<>>

(***************************************************************************)
(* Transforming in place.  hs as above; plan gives, for handled nodes, the *)
(* value that their handler returns (the node itself if not in the plan).  *)
(* The result is [H: heap after, v: value returned, log: nodes met].       *)
(***************************************************************************)
RECURSIVE Transform(_, _, _, _), TransformFields(_, _, _, _, _), TransformItems(_, _, _, _, _)
SetField(H, i, j, v) == [H EXCEPT ![i].f[j][2] = v]
Transform(H, v, hs, plan) ==
  IF ~IsNode(H, v) THEN [H |-> H, v |-> v, log |-> <<>>]
  ELSE LET i == v.i
           down == IF Handled(H, i, hs) /\ ~hs[H[i].t] THEN [H |-> H, log |-> <<>>] ELSE TransformFields(H, i, 1, hs, plan)
       IN [H |-> down.H, log |-> <<i>> \o down.log, v |-> IF Handled(H, i, hs) /\ i \in DOMAIN plan THEN plan[i] ELSE v]
TransformFields(H, i, j, hs, plan) ==
  IF j > Len(H[i].f) THEN [H |-> H, log |-> <<>>]
  ELSE LET v == H[i].f[j][2]
           r == IF IsList(H, v) THEN LET q == TransformItems(H, Values(H[v.i]), <<>>, hs, plan)
                                     IN [H |-> [q.H EXCEPT ![v.i].f = [n \in 1..Len(q.v) |-> <<"", q.v[n]>>]], log |-> q.log]
                ELSE IF IsNode(H, v) THEN LET q == Transform(H, v, hs, plan) IN [H |-> SetField(q.H, i, j, q.v), log |-> q.log]
                ELSE [H |-> H, log |-> <<>>]
           rest == TransformFields(r.H, i, j + 1, hs, plan)
       IN [H |-> rest.H, log |-> r.log \o rest.log]
TransformItems(H, vs, acc, hs, plan) ==
  IF vs = <<>> THEN [H |-> H, v |-> acc, log |-> <<>>]
  ELSE LET r == Transform(H, Head(vs), hs, plan)
           rest == TransformItems(r.H, Tail(vs), IF r.v = None THEN acc ELSE Append(acc, r.v), hs, plan)
       IN [H |-> rest.H, v |-> rest.v, log |-> r.log \o rest.log]
=============================================================================
