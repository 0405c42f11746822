-------------------------- MODULE FluentResource --------------------------
(***************************************************************************)
(* A resource: entries, separated by blank lines, with comment attachment. *)
(*                                                                         *)
(* The parser is a small machine over [p: cursor, stash: a comment waiting *)
(* for its message or term].  Step(s, m) consumes one entry and says what  *)
(* it emits.                                                               *)
(***************************************************************************)
EXTENDS FluentSyntax

Start(s) == [p |-> BlankBlock(s, 1, 0).p, stash |-> <<>>]
AtEnd(s, m) == m.p > Len(s)

Attach(c, n) == [n EXCEPT !.k[4] = <<c>>, !.a = c.a]

Step(s, m) ==
  LET e == EntryAt(s, m.p)
      b == BlankBlock(s, e.p, 0)
      n == e.n
  IN
  IF n.t = "Comment" /\ b.n = 0 /\ Ch(s, b.p) # EOF
  THEN [m |-> [p |-> b.p, stash |-> <<n>>], emit |-> m.stash]
  ELSE [m |-> [p |-> b.p, stash |-> <<>>],
        emit |-> IF m.stash = <<>> THEN <<n>>
                 ELSE IF n.t \in {"Message", "Term"} THEN <<Attach(m.stash[1], n)>>
                 ELSE m.stash \o <<n>>]

RECURSIVE RunFrom(_, _, _)
RunFrom(s, m, acc) ==
  IF AtEnd(s, m) THEN acc
  ELSE LET r == Step(s, m) IN RunFrom(s, r.m, acc \o r.emit)

Body(s) == RunFrom(s, Start(s), <<>>)

(* parse_entry: the first message, term or junk; comments are skipped. *)
RECURSIVE SkipComments(_, _)
SkipComments(s, p) ==
  IF Ch(s, p) # HASH THEN EntryAt(s, p).n
  ELSE LET e == EntryAt(s, p) IN
       IF e.n.t = "Junk" THEN e.n ELSE SkipComments(s, BlankBlock(s, e.p, 0).p)
FirstEntry(s) == SkipComments(s, BlankBlock(s, 1, 0).p)

RECURSIVE NoSpans(_)
NoSpans(n) == [n EXCEPT !.a = -1, !.b = -1,
                        !.k = [i \in 1..Len(n.k) |-> [j \in 1..Len(n.k[i]) |-> NoSpans(n.k[i][j])]]]
=============================================================================
