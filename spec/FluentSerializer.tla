-------------------------- MODULE FluentSerializer --------------------------
(***************************************************************************)
(* The canonical text of an AST.                                           *)
(***************************************************************************)
EXTENDS FluentResource

FourSpaces == T("    ")

(* Indent every line but the first; nothing follows a final line end. *)
RECURSIVE IndentRest(_)
IndentRest(v) ==
  LET n == Len(v)
      q == CHOOSE q \in 1..(n + 1) : (IF q > n THEN TRUE ELSE v[q] = LF) /\ \A r \in 1..(q - 1) : v[r] # LF
  IN  IF q >= n THEN v
      ELSE SubSeq(v, 1, q) \o FourSpaces \o IndentRest(SubSeq(v, q + 1, n))

RECURSIVE SerExpression(_), SerPlaceable(_), SerElements(_), SerList(_, _), SerVariants(_), SerPattern(_)

SerArguments(n) == T("(") \o SerList(n.k[1] \o n.k[2], 1) \o T(")")
SerOptArguments(c) == IF c = <<>> THEN <<>> ELSE SerArguments(c[1])
SerAccessor(c) == IF c = <<>> THEN <<>> ELSE T(".") \o c[1].v

SerExpression(n) ==
  CASE n.t = "StringLiteral"     -> <<QUOTE>> \o n.v \o <<QUOTE>>
    [] n.t = "NumberLiteral"     -> n.v
    [] n.t = "VariableReference" -> T("$") \o n.k[1][1].v
    [] n.t = "MessageReference"  -> n.k[1][1].v \o SerAccessor(n.k[2])
    [] n.t = "TermReference"     -> T("-") \o n.k[1][1].v \o SerAccessor(n.k[2]) \o SerOptArguments(n.k[3])
    [] n.t = "FunctionReference" -> n.k[1][1].v \o SerOptArguments(n.k[2])
    [] n.t = "NamedArgument"     -> n.k[1][1].v \o T(": ") \o SerExpression(n.k[2][1])
    [] n.t = "SelectExpression"  -> SerExpression(n.k[1][1]) \o T(" ->") \o SerVariants(n.k[2]) \o NL
    [] n.t = "Placeable"         -> SerPlaceable(n)

SerList(ns, i) ==
  IF i > Len(ns) THEN <<>>
  ELSE (IF i > 1 THEN T(", ") ELSE <<>>) \o SerExpression(ns[i]) \o SerList(ns, i + 1)

SerPlaceable(n) ==
  LET e == n.k[1][1] IN
  CASE e.t = "Placeable"        -> T("{") \o SerPlaceable(e) \o T("}")
    [] e.t = "SelectExpression" -> T("{ ") \o SerExpression(e) \o T("}")
    [] OTHER                    -> T("{ ") \o SerExpression(e) \o T(" }")

SerVariants(vs) ==
  IF vs = <<>> THEN <<>>
  ELSE LET n == Head(vs) IN
       NL \o (IF n.v = <<1>> THEN T("   *[") ELSE T("    [")) \o n.k[1][1].v \o T("]")
       \o IndentRest(SerPattern(n.k[2][1])) \o SerVariants(Tail(vs))

SerElements(es) ==
  IF es = <<>> THEN <<>>
  ELSE (IF Head(es).t = "TextElement" THEN Head(es).v ELSE SerPlaceable(Head(es))) \o SerElements(Tail(es))

(* A pattern of several lines starts on its own line, unless its first     *)
(* character would be taken for something else there.                      *)
Multiline(es) ==
  \E i \in 1..Len(es) :
    IF es[i].t = "TextElement" THEN \E j \in 1..Len(es[i].v) : es[i].v[j] = LF
    ELSE es[i].k[1][1].t = "SelectExpression"

OwnLine(es) == Multiline(es) /\ ~(es[1].t = "TextElement" /\ es[1].v[1] \in {LBRACK, DOT, STAR})

SerPattern(n) ==
  LET es == n.k[1] IN
  (IF OwnLine(es) THEN NL \o FourSpaces ELSE T(" ")) \o IndentRest(SerElements(es))

SerAttribute(n) == NL \o FourSpaces \o T(".") \o n.k[1][1].v \o T(" =") \o IndentRest(SerPattern(n.k[2][1]))

RECURSIVE SerAttributes(_)
SerAttributes(as) == IF as = <<>> THEN <<>> ELSE SerAttribute(Head(as)) \o SerAttributes(Tail(as))

RECURSIVE SerCommentLines(_, _)
SerCommentLines(v, sigil) ==
  LET n == Len(v)
      q == CHOOSE q \in 1..(n + 1) : (IF q > n THEN TRUE ELSE v[q] = LF) /\ \A r \in 1..(q - 1) : v[r] # LF
      line == SubSeq(v, 1, q - 1)
  IN  (IF line = <<>> THEN sigil ELSE sigil \o T(" ") \o line) \o NL
      \o (IF q > n THEN <<>> ELSE SerCommentLines(SubSeq(v, q + 1, n), sigil))

Sigil(t) == CASE t = "Comment" -> T("#") [] t = "GroupComment" -> T("##") [] t = "ResourceComment" -> T("###")

SerComment(n) == SerCommentLines(n.v, Sigil(n.t))

(* hasEntries: something has been written before. *)
SerEntry(n, hasEntries) ==
  CASE n.t \in {"Message", "Term"} ->
         (IF n.k[4] = <<>> THEN <<>> ELSE SerComment(n.k[4][1]))
         \o (IF n.t = "Term" THEN T("-") ELSE <<>>) \o n.k[1][1].v \o T(" =")
         \o (IF n.k[2] = <<>> THEN <<>> ELSE SerPattern(n.k[2][1]))
         \o SerAttributes(n.k[3]) \o NL
    [] n.t = "Junk" -> n.v
    [] OTHER -> (IF hasEntries THEN NL ELSE <<>>) \o SerComment(n) \o NL

RECURSIVE SerBody(_, _, _)
SerBody(body, withJunk, hasEntries) ==
  IF body = <<>> THEN <<>>
  ELSE IF Head(body).t = "Junk" /\ ~withJunk THEN SerBody(Tail(body), withJunk, hasEntries)
  ELSE SerEntry(Head(body), hasEntries) \o SerBody(Tail(body), withJunk, TRUE)

SerializeBody(body, withJunk) == SerBody(body, withJunk, FALSE)

NotJunk(n) == n.t # "Junk"
Clean(body) == LET b == SelectSeq(body, NotJunk) IN [i \in 1..Len(b) |-> NoSpans(b[i])]

(* A CR right before a line break cannot be written down: the two would be  *)
(* read as one line end.  A pattern of nothing but CRs is trimmed to one   *)
(* without elements, which cannot be written down either.                  *)
RECURSIVE Writable(_)
Writable(n) ==
  /\ n.t \in {"TextElement", "Comment", "GroupComment", "ResourceComment"} =>
       /\ \A i \in 1..(Len(n.v) - 1) : ~(n.v[i] = CR /\ n.v[i + 1] = LF)
       /\ n.t # "TextElement" /\ n.v # <<>> => n.v[Len(n.v)] # CR
  /\ n.t = "Pattern" => n.k[1] # <<>>
  /\ \A i \in 1..Len(n.k) : \A j \in 1..Len(n.k[i]) : Writable(n.k[i][j])
=============================================================================
