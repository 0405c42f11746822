---------------------------- MODULE FluentViews ----------------------------
(***************************************************************************)
(* What each property says about a parsed resource: well-formedness        *)
(* predicates over (source, body), and projections ("views") that keep     *)
(* only the part of an AST the property is about.                          *)
(***************************************************************************)
EXTENDS FluentResource

(* ------------------------------------------------------------------ C01 *)
(* Everything outside the entries is blank.  Offsets are 0-based.          *)
BlankGap(s, from, to) ==
  \A j \in (from + 1)..to :
     \/ s[j] \in {SP, LF}
     \/ s[j] = CR /\ j < Len(s) /\ s[j + 1] = LF

Tiles(s, body) ==
  LET n == Len(body) IN
  /\ \A i \in 1..n : 0 <= body[i].a /\ body[i].a < body[i].b /\ body[i].b <= Len(s)
  /\ \A i \in 1..(n - 1) : body[i].b <= body[i + 1].a
  /\ IF n = 0 THEN BlankGap(s, 0, Len(s))
     ELSE /\ BlankGap(s, 0, body[1].a)
          /\ \A i \in 1..(n - 1) : BlankGap(s, body[i].b, body[i + 1].a)
          /\ BlankGap(s, body[n].b, Len(s))

(* ------------------------------------------------------------------ C04 *)
RECURSIVE FlatKids(_, _)
FlatKids(k, i) == IF i > Len(k) THEN <<>> ELSE k[i] \o FlatKids(k, i + 1)

(* Children in source order: a comment comes before the id. *)
Kids(n) == IF n.t \in {"Message", "Term"} THEN n.k[4] \o n.k[1] \o n.k[2] \o n.k[3]
           ELSE IF n.t = "Annotation" THEN <<>> ELSE FlatKids(n.k, 1)

RECURSIVE SpansNest(_)
SpansNest(n) ==
  LET c == Kids(n) IN
  /\ n.a <= n.b
  /\ \A i \in 1..Len(c) : n.a <= c[i].a /\ c[i].b <= n.b
  /\ \A i \in 1..(Len(c) - 1) : c[i].b <= c[i + 1].a
  /\ n.t \in {"Message", "Term"} /\ n.k[4] # <<>> => n.a = n.k[4][1].a
  /\ \A i \in 1..Len(c) : SpansNest(c[i])

RECURSIVE SpansExact(_, _)
SpansExact(s, n) ==
  /\ n.a >= 0 /\ n.b <= Len(s)
  /\ n.t \in {"Identifier", "NumberLiteral", "Junk"} => n.v = SubSeq(s, n.a + 1, n.b)
  /\ n.t = "StringLiteral" => <<QUOTE>> \o n.v \o <<QUOTE>> = SubSeq(s, n.a + 1, n.b)
  /\ LET c == Kids(n) IN \A i \in 1..Len(c) : SpansExact(s, c[i])

(* ---------------------------------------------------------------- views *)
Bare(t, v, k) == [t |-> t, a |-> -1, b |-> -1, v |-> v, k |-> k]

(* C02: the tree, without offsets and error details. *)
RECURSIVE Tree(_)
Tree(n) == Bare(n.t, n.v, IF n.t = "Junk" THEN <<>>
                          ELSE [i \in 1..Len(n.k) |-> [j \in 1..Len(n.k[i]) |-> Tree(n.k[i][j])]])

(* C03: junk in full, of other entries which they are. *)
JunkView(n) == IF n.t = "Junk" THEN n
               ELSE IF n.t \in {"Message", "Term"} THEN Bare(n.t, n.k[1][1].v, <<>>)
               ELSE Bare(n.t, n.v, <<>>)

(* C05: comments and what they are attached to. *)
CommentView(n) == IF n.t = "Junk" THEN Bare("Junk", <<>>, <<>>)
                  ELSE IF n.t \in {"Message", "Term"}
                       THEN Bare(n.t, n.k[1][1].v, <<[i \in 1..Len(n.k[4]) |-> Bare(n.k[4][i].t, n.k[4][i].v, <<>>)]>>)
                  ELSE Bare(n.t, n.v, <<>>)

(* C06: patterns and their text; other expressions only by type. *)
RECURSIVE TextView(_)
TextView(n) ==
  LET all == [i \in 1..Len(n.k) |-> [j \in 1..Len(n.k[i]) |-> TextView(n.k[i][j])]] IN
  IF n.t \in {"Message", "Term"} THEN Bare(n.t, n.k[1][1].v, <<all[2], all[3]>>)
  ELSE IF n.t \in {"Attribute", "Pattern", "Placeable", "SelectExpression", "Variant", "CallArguments"} THEN Bare(n.t, <<>>, all)
  ELSE IF n.t \in {"TermReference", "FunctionReference"} THEN Bare(n.t, <<>>, all[Len(all)])
  ELSE IF n.t = "TextElement" THEN Bare(n.t, n.v, <<>>)
  ELSE Bare(n.t, <<>>, <<>>)

(* C07: what line ends must not change. *)
LineEndView(n) == IF n.t # "Junk" THEN NoSpans(n)
                  ELSE [NoSpans(n) EXCEPT !.v = <<>>]

View(name, n) ==
  CASE name = "C02" -> Tree(n)
    [] name = "C03" -> JunkView(n)
    [] name = "C04" -> n
    [] name = "C05" -> CommentView(n)
    [] name = "C06" -> TextView(n)
    [] name = "C07" -> LineEndView(n)
    [] OTHER -> n

ViewAll(name, ns) == [i \in 1..Len(ns) |-> View(name, ns[i])]
=============================================================================
