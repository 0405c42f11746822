------------------------------- MODULE TreeMC -------------------------------
(***************************************************************************)
(* All small trees of nodes of types P and Q, each with a scalar, a child  *)
(* and a list of children: the visiting machine, transforming, equality    *)
(* and copying (C10, C12).  The state walks the machine step by step.      *)
(***************************************************************************)
EXTENDS FluentTree, IOUtils

Levels == IOEnv.DEPTH

(* Trees as nested records: type, scalar, child (<<>> or <<tree>>), items. *)
Leaf == [t : {"P", "Q"}, s : {1, 2}, c : {<<>>}, l : {<<>>}]
Leaf1 == {[t |-> "P", s |-> 1, c |-> <<>>, l |-> <<>>], [t |-> "Q", s |-> 2, c |-> <<>>, l |-> <<>>]}
Over(S, W) == [t : {"P", "Q"}, s : {1}, c : {<<>>} \cup {<<x>> : x \in S}, l : UNION {[1..n -> W] : n \in 0..2}]
Small == Over(Leaf1, Leaf1)
Trees == IF Levels = "3" THEN Over(Small, Leaf1) ELSE Small \cup Leaf \cup [t : {"P"}, s : {2}, c : {<<>>}, l : {<<x, y>> : x \in {z \in Small : Len(z.l) = 1}, y \in Leaf1}]

(* Put a tree into a heap: the heap and the value. *)
RECURSIVE Build(_, _), BuildList(_, _, _)
Build(H, x) ==
  LET i == Len(H) + 1
      H1 == Append(H, [c |-> "node", t |-> x.t, f |-> <<>>])
      a == IF x.c = <<>> THEN [H |-> H1, v |-> None] ELSE Build(H1, x.c[1])
      j == Len(a.H) + 1
      b == BuildList(Append(a.H, [c |-> "list", t |-> "", f |-> <<>>]), x.l, <<>>)
  IN [v |-> Ref(i), H |-> [b.H EXCEPT ![i].f = <<<<"span", None>>, <<"s", [k |-> "i", i |-> x.s]>>, <<"c", a.v>>, <<"l", Ref(j)>>>>,
                                     ![j].f = [n \in 1..Len(b.v) |-> <<"", b.v[n]>>]]]
BuildList(H, xs, acc) == IF xs = <<>> THEN [H |-> H, v |-> acc] ELSE LET r == Build(H, Head(xs)) IN BuildList(r.H, Tail(xs), Append(acc, r.v))

VARIABLES tree, hs, log, stack
vars == <<tree, hs, log, stack>>
Built == Build(<<>>, tree)
H0 == Built.H
Root == Built.v

Handlers == {<<>>, "P" :> TRUE, "P" :> FALSE, ("P" :> TRUE) @@ ("Q" :> FALSE)}
Init == tree \in Trees /\ hs \in Handlers /\ log = <<>> /\ stack = <<Root>>
Next == LET r == NextVisit(H0, stack, hs) IN r[1] # 0 /\ log' = Append(log, r[1]) /\ stack' = r[2] /\ UNCHANGED <<tree, hs>>
Spec == Init /\ [][Next]_vars

Nodes(H) == {i \in 1..Len(H) : H[i].c = "node"}
Ended == NextVisit(H0, stack, hs)[1] = 0
(* Nothing is met twice; at the end all is met that no handler hides. *)
Once == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
InOrder == \A i \in 1..(Len(log) - 1) : log[i] < log[i + 1]      \* objects are numbered in document order
AtEnd == Ended => log = PreOrder(H0, Root, hs) /\ (~(FALSE \in {hs[t] : t \in DOMAIN hs}) => {log[i] : i \in 1..Len(log)} = Nodes(H0))
(* An empty plan changes nothing and meets the same nodes. *)
Identity == Ended => LET r == Transform(H0, Root, hs, <<>>) IN r.H = H0 /\ r.v = Root /\ r.log = log
(* Dropping one node: it and what is below are gone, all others are left,  *)
(* in order.                                                               *)
Drop == Ended /\ "P" \in DOMAIN hs => \A i \in Nodes(H0) :
  LET r == Transform(H0, Root, hs, i :> None)
      hit == \E n \in 1..Len(log) : log[n] = i /\ Handled(H0, i, hs)
      left == SelectSeq(PreOrder(H0, Root, <<>>), LAMBDA x : ~(hit /\ x \in Reach(H0, Ref(i))))
  IN /\ (r.v = None) = (hit /\ Ref(i) = Root)
     /\ r.v # None => PreOrder(r.H, Root, <<>>) = left
     /\ \A j \in Nodes(H0) : \A n \in {"s", "span"} : Field(r.H[j], n) = Field(H0[j], n)
(* Equality and copies. *)
Twice == Build(H0, tree)
Copy == log = <<>> => IsClone(Twice.H, Root, Twice.v) /\ Same(H0, Root, Root, {}) /\ ~IsClone(H0, Root, Root)
Variation == log = <<>> /\ hs = <<>> => \A i \in Nodes(H0) :
  LET M == [Twice.H EXCEPT ![i].f[2][2].i = @ + 1]                     \* one scalar of the original changed
  IN ~Same(M, Root, Twice.v, {}) /\ ~Same(M, Twice.v, Root, {"span"}) /\ Same(M, Root, Twice.v, {"s"}) /\ PreOrder(M, Twice.v, <<>>) = PreOrder(Twice.H, Twice.v, <<>>)
Symmetric == log = <<>> /\ hs = <<>> => \A x \in Leaf \cup {tree} : LET b == Build(H0, x) IN
  Same(b.H, Root, b.v, {}) = Same(b.H, b.v, Root, {}) /\ Same(b.H, Root, b.v, {}) = (x = tree) /\ (Same(b.H, Root, b.v, {}) => Same(b.H, Root, b.v, {"s"}))
=============================================================================
