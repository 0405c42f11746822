----------------------------- MODULE SyntaxMC -----------------------------
(***************************************************************************)
(* Exhaustive check of the syntax specification itself: every text built   *)
(* from at most DEPTH tokens of an alphabet (one per property, ALPHA),     *)
(* appended one by one.                                                    *)
(***************************************************************************)
EXTENDS FluentViews, IOUtils

RECURSIVE ToInt(_, _)
ToInt(str, i) == IF i > Len(str) THEN 0 ELSE ToInt(str, i + 1) + (CodeOf[SubSeq(str, i, i)] - 48) * (10 ^ (Len(str) - i))
Depth == ToInt(IOEnv.DEPTH, 1)

Crlf == <<CR, LF>>
Alphabets ==
  [C01 |-> {T(" "), NL, Crlf, T("a"), T("= "), T("{"), T("#"), T("-"), <<CR>>, T("}")},
   C02 |-> {T("a = {"), T("-b"), T("$c"), T("1"), <<QUOTE>>, T(" -> *[d] e"), T("("), T(")"), T("}"), T("F"), T(":"), T(",")},
   C03 |-> {T("a = b"), T("a"), NL, T("{"), T(" "), T("-"), T("//"), T("[["), Crlf},
   C04 |-> {T("a = "), T("b"), NL, Crlf, T("  "), T("{1}"), T("# c"), T(" .d = "), T("{$e ->")},
   C05 |-> {T("# x"), T("#"), T("##"), NL, Crlf, T("a = b"), T("-t = u"), T(" "), T("err")},
   C06 |-> {T("a ="), NL, T(" "), T("  "), T("t"), T("{1}"), T("["), T("}"), Crlf},
   C07 |-> {T("a = "), NL, T(" "), T("b"), T("#"), T("{"), T("}"), T("[[")},
   C14 |-> {T("#"), T("# x"), NL, T("a = b"), T("-t = u"), T("{"), T(" ")}]
Alphabet == Alphabets[IOEnv.ALPHA]

VARIABLES txt, used
vars == <<txt, used>>
Init == txt = <<>> /\ used = 0
TypeToken == /\ used < Depth
             /\ \E tok \in Alphabet : txt' = txt \o tok
             /\ used' = used + 1
Next == TypeToken
Spec == Init /\ [][Next]_vars
TextOnly == txt      \* VIEW: the same text typed in another way is the same state

ToCrlf(s) == FlatText([i \in 1..Len(s) |-> IF s[i] = LF THEN Crlf ELSE <<s[i]>>])

(* C01 *)
Total == Tiles(txt, Body(txt))
(* C04 *)
Nested == \A i \in 1..Len(Body(txt)) : SpansNest(Body(txt)[i]) /\ SpansExact(txt, Body(txt)[i])
(* C03 *)
JunkVerbatim ==
  LET body == Body(txt) IN
  \A i \in 1..Len(body) : body[i].t = "Junk" =>
     LET j == body[i]
         n == j.k[1][1]
     IN  /\ j.v = SubSeq(txt, j.a + 1, j.b)
         /\ Len(j.k[1]) = 1 /\ n.a = n.b /\ j.a <= n.a /\ n.a <= j.b
         /\ j.b = Len(txt) \/ (txt[j.b] = LF /\ EntryStartLine(txt, j.b + 1))
(* C03, containment: cutting the junk out does not change the others, as    *)
(* long as no comment is before it.                                         *)
Contained ==
  LET body == Body(txt)
      shape(b) == [i \in 1..Len(b) |-> JunkView(b[i])]
  IN  \A i \in 1..Len(body) :
        body[i].t = "Junk" /\ (i = 1 \/ body[i - 1].t # "Comment") =>
          LET rest == Body(SubSeq(txt, body[i].b + 1, Len(txt)))
              before == Body(SubSeq(txt, 1, body[i].a))
              tree(b) == [m \in 1..Len(b) |-> Tree(b[m])]
          IN  tree(before \o rest) = tree(SubSeq(body, 1, i - 1) \o SubSeq(body, i + 1, Len(body)))
(* C05: comment text is neither lost nor invented: every "#"-line outside   *)
(* junk and patterns shows up in exactly one comment.                       *)
CommentsAttach ==
  LET body == Body(txt) IN
  \A i \in 1..Len(body) :
     /\ body[i].t \in {"Message", "Term"} /\ body[i].k[4] # <<>> =>
          LET c == body[i].k[4][1] IN c.t = "Comment" /\ BlankGap(txt, c.b, body[i].k[1][1].a - (IF body[i].t = "Term" THEN 1 ELSE 0))
     /\ i < Len(body) /\ body[i].t = "Comment" /\ body[i + 1].t \in {"Message", "Term"} =>
          \E j \in (body[i].b + 1)..body[i + 1].a : \E k \in (j + 1)..body[i + 1].a : txt[j] = LF /\ txt[k] = LF
(* C06 *)
RECURSIVE PatternsOk(_)
PatternsOk(n) ==
  /\ n.t = "Pattern" =>
       LET es == n.k[1] IN
       /\ \A i \in 1..Len(es) : es[i].t = "TextElement" => es[i].v # <<>> /\ (i < Len(es) => es[i + 1].t # "TextElement")
       /\ Len(es) > 0 /\ es[Len(es)].t = "TextElement" => es[Len(es)].v[Len(es[Len(es)].v)] \notin {SP, LF}
  /\ \A i \in 1..Len(n.k) : \A j \in 1..Len(n.k[i]) : PatternsOk(n.k[i][j])
Dedented == \A i \in 1..Len(Body(txt)) : PatternsOk(Body(txt)[i])
(* C07 *)
LineEnds ==
  (\A i \in 1..Len(txt) : txt[i] # CR) => ViewAll("C07", Body(ToCrlf(txt))) = ViewAll("C07", Body(txt))
(* C14 *)
EntryAgrees ==
  LET body == Body(txt)
      idx  == {i \in 1..Len(body) : body[i].t \in {"Message", "Term", "Junk"}}
      first == CHOOSE i \in idx : \A j \in idx : i <= j
      e    == FirstEntry(txt)
  IN  idx # {} => IF body[first].t = "Junk" THEN e = body[first]
                  ELSE e = [body[first] EXCEPT !.k[4] = <<>>, !.a = body[first].k[1][1].a - (IF e.t = "Term" THEN 1 ELSE 0)]
=============================================================================
