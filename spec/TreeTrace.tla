----------------------------- MODULE TreeTrace -----------------------------
(***************************************************************************)
(* Validates histories of operations on AST objects.  A record has the     *)
(* heap at the start and the operations, each with what it gave and the    *)
(* objects that are new or changed after it (diff: pairs <<index, object>>):  *)
(*   clone a -> out                      equals a, b, ign -> out           *)
(*   set a, n, v    append a, v    pop a     (by the harness)              *)
(*   json a, wrap, cut -> out, log (dicts that the hook was given)         *)
(*   unjson j -> out  (j: JSON data, a: the node it was made of)           *)
(*   visit v, hs -> log        transform v, hs, plan -> out, log           *)
(* raised, if not "", names an exception.                                  *)
(***************************************************************************)
EXTENDS FluentTree, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tc, upto, heap, phase
vars == <<tc, upto, heap, phase>>
Op == Cases[tc].ops[upto + 1]

Patched == FoldLeft(LAMBDA h, d : IF d[1] > Len(h) THEN Append(h, d[2]) ELSE [h EXCEPT ![d[1]] = d[2]], heap, Op.diff)
Unchanged(after) == Len(after) >= Len(heap) /\ SubSeq(after, 1, Len(heap)) = heap
SetOf(s) == {s[i] : i \in 1..Len(s)}
FunOf(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]
(* An assignment creates the field behind the others if there is none. *)
Assigned(o, n, v) == IF n \in FieldNames(o) THEN [o EXCEPT !.f = [i \in 1..Len(o.f) |-> IF o.f[i][1] = n THEN <<n, v>> ELSE o.f[i]]] ELSE [o EXCEPT !.f = Append(@, <<n, v>>)]

RECURSIVE Visited(_, _, _)
Visited(stack, log, hs) ==
  LET r == NextVisit(heap, stack, hs) IN
  IF r[1] = 0 THEN IF log = <<>> THEN "" ELSE "visited more than there is"
  ELSE IF log = <<>> THEN "not all visited"
  ELSE IF Head(log)[1] # r[1] THEN "visited out of order"
  ELSE IF Head(log)[2] # (IF Handled(heap, r[1], hs) THEN heap[r[1]].t ELSE "") THEN "wrong handler"
  ELSE Visited(r[2], Tail(log), hs)

(* JSON knows no tuples. *)
Listed(h) == [i \in 1..Len(h) |-> IF h[i].c = "tuple" THEN [h[i] EXCEPT !.c = "list"] ELSE h[i]]

Why(after) ==
  CASE Op.raised # "" -> "raised " \o Op.raised
    [] Op.op = "clone" ->
         IF ~Unchanged(after) THEN "clone changed the original"
         ELSE IF ~Same(after, Op.a, Op.out, {}) THEN "the clone differs"
         ELSE IF \E i \in Reach(after, Op.out) : i <= Len(heap) THEN "the clone shares an object"
         ELSE ""
    [] Op.op = "equals" ->
         IF after # heap THEN "equals changed something"
         ELSE IF Op.out # Same(heap, Op.a, Op.b, SetOf(Op.ign)) THEN "equals" ELSE ""
    [] Op.op = "new" -> IF ~Unchanged(after) THEN "changed meanwhile" ELSE ""
    [] Op.op = "set" ->
         IF \E j \in 1..Len(heap) : after[j] # (IF j = Op.a.i THEN Assigned(heap[j], Op.n, Op.v) ELSE heap[j]) THEN "a change shows elsewhere" ELSE ""
    [] Op.op = "append" ->
         IF \E j \in 1..Len(heap) : after[j] # (IF j = Op.a.i THEN [heap[j] EXCEPT !.f = Append(@, <<"", Op.v>>)] ELSE heap[j]) THEN "a change shows elsewhere" ELSE ""
    [] Op.op = "pop" ->
         IF \E j \in 1..Len(heap) : after[j] # (IF j = Op.a.i THEN [heap[j] EXCEPT !.f = Front(@)] ELSE heap[j]) THEN "a change shows elsewhere" ELSE ""
    [] Op.op = "json" ->
         IF ~Unchanged(after) THEN "to_json changed the tree"
         ELSE LET hook == [name |-> Op.wrap, cut |-> FunOf(Op.cut)] IN
              IF ~IsJson(after, Op.a, Op.out, hook) THEN "JSON data"
         ELSE LET order == PostOrder(heap, Op.a) IN
              IF ~Op.hook THEN ""
              ELSE IF Len(order) # Len(Op.log) THEN "hook calls"
              ELSE IF \E i \in 1..Len(order) : ~IsData(after, Ref(order[i]), Op.log[i], hook) THEN "the hook's data or order" ELSE ""
    [] Op.op = "unjson" ->
         IF ~Unchanged(after) THEN "from_json changed something"
         ELSE IF ~Same(Listed(after), Op.a, Op.out, {}) THEN "the AST made of the JSON data differs"
         ELSE IF \E i \in Reach(after, Op.out) : i <= Len(heap) THEN "the AST made of JSON data shares an object" ELSE ""
    [] Op.op = "visit" ->
         IF after # heap THEN "visiting changed something"
         ELSE Visited(<<Op.v>>, Op.log, FunOf(Op.hs))
    [] Op.op = "transform" ->
         LET r == Transform(heap, Op.v, FunOf(Op.hs), FunOf(Op.plan)) IN
         IF r.log # Op.log THEN "transformer: nodes met"
         ELSE IF r.v # Op.out THEN "transformer: result"
         ELSE IF r.H # after THEN "transformer: edits" ELSE ""

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run" /\ heap = Cases[tc].heap
Step ==
  /\ phase = "run" /\ upto < Len(Cases[tc].ops)
  /\ UNCHANGED tc
  /\ LET after == Patched w == Why(after) IN
     IF w = "" THEN upto' = upto + 1 /\ heap' = after /\ UNCHANGED phase
     ELSE PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> w, want |-> <<>>])) /\ phase' = "bad" /\ UNCHANGED <<upto, heap>>
Finish == phase = "run" /\ upto = Len(Cases[tc].ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto, heap>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
