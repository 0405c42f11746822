---------------------------- MODULE FluentTools ----------------------------
(***************************************************************************)
(* The command-line tools: each reads one file and prints.                 *)
(*   fmt    tools/fluentfmt.py FILE: the canonical text                    *)
(*   parse  tools/parse.py FILE: the AST as JSON                           *)
(*   text   tools/serialize.py FILE: the canonical text of a JSON AST      *)
(*   color  python -m fluent.pygments.cli FILE: the text, highlighted      *)
(* A file's content is                                                     *)
(*   [k "text", t]           text t, as UTF-8                              *)
(*   [k "ast", t, end, body] the AST of a resource as JSON, in the text t  *)
(*   [k "bad"]               bytes that are not UTF-8                      *)
(*   [k "none"]              there is no such file                         *)
(* An outcome is [ok, k, t, end, body]: k "text" with what was printed, or *)
(* k "ast" with an AST, whose layout as JSON is not specified.             *)
(***************************************************************************)
EXTENDS FluentSerializer, FluentHighlight

None == [k |-> "none"]
Readable(c) == c.k \in {"text", "ast"}
Fails == [ok |-> FALSE, k |-> "text", t |-> <<>>, end |-> 0, body |-> <<>>]
Prints(t) == [ok |-> TRUE, k |-> "text", t |-> t, end |-> 0, body |-> <<>>]
PrintsAst(s) == [ok |-> TRUE, k |-> "ast", t |-> <<>>, end |-> Len(s), body |-> Body(s)]

(* ---- what the highlighter's command prepares *)
RECURSIVE LineEnds(_, _)
LineEnds(s, i) == IF i > Len(s) THEN <<>>
                  ELSE IF s[i] # CR THEN <<s[i]>> \o LineEnds(s, i + 1)
                  ELSE <<LF>> \o LineEnds(s, IF i < Len(s) /\ s[i + 1] = LF THEN i + 2 ELSE i + 1)
BOM == 65279
NoMark(s) == IF s # <<>> /\ s[1] = BOM THEN Tail(s) ELSE s
RECURSIVE Stripped(_)
Stripped(s) == IF s = <<>> THEN s ELSE IF s[1] = LF THEN Stripped(Tail(s)) ELSE IF s[Len(s)] = LF THEN Stripped(SubSeq(s, 1, Len(s) - 1)) ELSE s
Prepared(s) == Append(Stripped(NoMark(LineEnds(s, 1))), LF)

(* A token is written line by line between the codes of its class. *)
RECURSIVE Painted(_, _)
Painted(s, style) ==
  LET n == Len(s)
      q == CHOOSE q \in 1..(n + 1) : (IF q > n THEN TRUE ELSE s[q] = LF) /\ \A r \in 1..(q - 1) : s[r] # LF
      line == SubSeq(s, 1, q - 1)
  IN (IF line = <<>> THEN <<>> ELSE style.on \o line \o style.off) \o (IF q > n THEN <<>> ELSE NL \o Painted(SubSeq(s, q + 1, n), style))
RECURSIVE PaintedAll(_, _)
PaintedAll(ts, styles) == IF ts = <<>> THEN <<>> ELSE Painted(ts[1].s, styles[ts[1].c]) \o PaintedAll(Tail(ts), styles)

(* ---- the tools *)
Canonical(body) == Append(SerializeBody(body, FALSE), LF)
Run(op, c, styles) ==
  CASE op = "fmt"   -> IF Readable(c) THEN Prints(Canonical(Body(c.t))) ELSE Fails
    [] op = "parse" -> IF Readable(c) THEN PrintsAst(c.t) ELSE Fails
    [] op = "text"  -> IF c.k = "ast" THEN Prints(Canonical(c.body)) ELSE Fails
    [] op = "color" -> IF Readable(c) THEN Prints(PaintedAll(Tokens(Prepared(c.t)), styles)) ELSE Fails
(* The content of a file that was printed into. *)
Printed(r, t) == IF r.k = "ast" THEN [k |-> "ast", t |-> t, end |-> r.end, body |-> r.body] ELSE [k |-> "text", t |-> t]
=============================================================================
