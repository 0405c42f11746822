-------------------------- MODULE FluentHighlight --------------------------
(***************************************************************************)
(* Syntax highlighting (C31): a source text as classified tokens.  A token *)
(* is [a: start, c: class, s: text].                                       *)
(***************************************************************************)
EXTENDS FluentResource

ClassOf(t) == CASE t \in {"Comment", "GroupComment", "ResourceComment"} -> "Token.Comment.Multiline"
                [] t = "Identifier" -> "Token.Name.Constant"
                [] t = "TextElement" -> "Token.Literal"
                [] t = "NumberLiteral" -> "Token.Literal.Number"
                [] t = "StringLiteral" -> "Token.Literal.String"
                [] t = "VariableReference" -> "Token.Name.Variable"
                [] t = "Junk" -> "Token.Generic.Error"
                [] OTHER -> ""
KEYCLASS == "Token.Name.Attribute"
RESTCLASS == "Token.Punctuation"
Mark(n, c) == [a |-> n.a, b |-> n.b, c |-> c]

(* The classified parts of a node, from left to right. *)
RECURSIVE Marks(_), MarksAll(_)
MarksAll(ns) == IF ns = <<>> THEN <<>> ELSE Marks(ns[1]) \o MarksAll(Tail(ns))
Marks(n) ==
  IF ClassOf(n.t) # "" THEN <<Mark(n, ClassOf(n.t))>>
  ELSE IF n.t = "Variant" THEN <<Mark(n.k[1][1], KEYCLASS)>> \o MarksAll(n.k[2])
  ELSE LET k == IF n.t \in {"Message", "Term"} THEN <<n.k[4], n.k[1], n.k[2], n.k[3]>> ELSE n.k
       IN FoldLeft(LAMBDA acc, f : acc \o MarksAll(f), <<>>, k)

(* The tokens of text s, with the given marks behind offset p. *)
Part(s, a, b) == SubSeq(s, a + 1, b)
RECURSIVE Cover(_, _, _)
Cover(s, p, m) ==
  LET gap(q) == IF p < q THEN <<[a |-> p, c |-> RESTCLASS, s |-> Part(s, p, q)]>> ELSE <<>>
  IN  IF m = <<>> THEN gap(Len(s))
      ELSE gap(m[1].a) \o <<[a |-> m[1].a, c |-> m[1].c, s |-> Part(s, m[1].a, m[1].b)]>> \o Cover(s, m[1].b, Tail(m))
Tokens(s) == Cover(s, 0, MarksAll(Body(s)))
=============================================================================
