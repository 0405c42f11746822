--------------------------- MODULE FluentSyntax ---------------------------
(***************************************************************************)
(* The Fluent 1.0 grammar, its abstract syntax and its error recovery, as  *)
(* operators over code point sequences.                                    *)
(*                                                                         *)
(* Every production P is an operator P(s, p): parse at cursor p of text s. *)
(* The result is either R(p', node) - success, p' is the cursor behind the *)
(* production - or E(p', code, args): the production failed with the       *)
(* cursor at p'.  A failed entry becomes Junk (see EntryAt), and parsing   *)
(* resumes at the next line that looks like an entry.                      *)
(*                                                                         *)
(* A node is [t: type, a: start, b: end, v: text, k: children].  a and b   *)
(* are 0-based half-open offsets into the source; k is one sequence of     *)
(* nodes per structural field, in the order of the abstract syntax.        *)
(***************************************************************************)
EXTENDS FluentText

N(t, a, b, v, k) == [t |-> t, a |-> a - 1, b |-> b - 1, v |-> v, k |-> k]
R(p, n)    == [ok |-> TRUE,  p |-> p, n |-> n]
E(p, c, a) == [ok |-> FALSE, p |-> p, c |-> c, a |-> a]

(***************************************************************************)
(* Blank space.                                                            *)
(***************************************************************************)
(* Scans are written as "the first cursor q at or after p such that ...";  *)
(* the cursor behind the text, Len(s) + 1, always qualifies.               *)
SkipInline(s, p) ==
  IF p > Len(s) \/ s[p] # 32 THEN p
  ELSE LET n == Len(s) IN
       CHOOSE q \in (p + 1)..(n + 1) : (IF q > n THEN TRUE ELSE s[q] # 32) /\ \A r \in p..(q - 1) : s[r] = 32

(* blank_block: any number of lines holding only spaces.  p: the cursor at *)
(* the start of the first non-blank line (or the end of the text); n: how  *)
(* many line ends were skipped.                                            *)
RECURSIVE BlankBlock(_, _, _)
BlankBlock(s, p, n) ==
  LET q == SkipInline(s, p)
      c == Ch(s, q)
  IN  IF c = LF THEN BlankBlock(s, Nx(s, q), n + 1)
      ELSE IF c = EOF THEN [p |-> q, n |-> n]
      ELSE [p |-> p, n |-> n]

RECURSIVE SkipBlank(_, _)
SkipBlank(s, p) ==
  IF p > Len(s) THEN p
  ELSE IF s[p] = SP \/ s[p] = LF THEN SkipBlank(s, p + 1)
  ELSE IF s[p] = CR /\ IsCRLF(s, p) THEN SkipBlank(s, p + 2)
  ELSE p

LineEndErr == T("") \o <<9252>>     \* U+2424 SYMBOL FOR NEWLINE

(***************************************************************************)
(* Identifiers and literals.                                               *)
(***************************************************************************)
IdEnd(s, p) ==
  LET n == Len(s) IN
  IF p > n THEN p
  ELSE CHOOSE q \in p..(n + 1) : (IF q > n THEN TRUE ELSE s[q] \notin IdChars) /\ \A r \in p..(q - 1) : s[r] \in IdChars

DigitsEnd(s, p) ==
  LET n == Len(s) IN
  IF p > n THEN p
  ELSE CHOOSE q \in p..(n + 1) : (IF q > n THEN TRUE ELSE s[q] \notin 48..57) /\ \A r \in p..(q - 1) : s[r] \in 48..57

Identifier(s, p) ==
  IF p <= Len(s) /\ IsLetter(s[p])
  THEN LET q == IdEnd(s, p) IN R(q, N("Identifier", p, q, Slice(s, p, q), <<>>))
  ELSE E(p, "E0004", <<T("a-zA-Z")>>)

NumberStart(s, p) ==
  IF Ch(s, p) = DASH THEN IsDigit(Raw(s, p + 1)) ELSE IsDigit(Raw(s, p))

Number(s, p) ==
  LET d1 == IF Ch(s, p) = DASH THEN p + 1 ELSE p
      e1 == DigitsEnd(s, d1)
      e2 == DigitsEnd(s, e1 + 1)
  IN  IF e1 = d1 THEN E(d1, "E0004", <<T("0-9")>>)
      ELSE IF Ch(s, e1) # DOT THEN R(e1, N("NumberLiteral", p, e1, Slice(s, p, e1), <<>>))
      ELSE IF e2 = e1 + 1 THEN E(e2, "E0004", <<T("0-9")>>)
      ELSE R(e2, N("NumberLiteral", p, e2, Slice(s, p, e2), <<>>))

(* A character as the error message shows it. *)
Shown(c) == IF c = EOF THEN T("None") ELSE <<c>>

RECURSIVE HexRun(_, _, _)      \* the cursor after at most n hex digits
HexRun(s, p, n) == IF n > 0 /\ IsHex(Raw(s, p)) THEN HexRun(s, p + 1, n - 1) ELSE p

(* The cursor after an escape sequence whose backslash is at p - 1. *)
Escape(s, p) ==
  LET c == Ch(s, p)
      n == IF c = 117 THEN 4 ELSE 6
      q == HexRun(s, p + 1, n)
  IN  IF c = BSLASH \/ c = QUOTE THEN R(p + 1, <<>>)
      ELSE IF c = 117 \/ c = 85
           THEN IF q = p + 1 + n THEN R(q, <<>>)
                ELSE E(q, "E0026", <<<<BSLASH>> \o Slice(s, p, q) \o Shown(Ch(s, q))>>)
      ELSE E(p, "E0025", IF c = EOF THEN <<>> ELSE <<<<c>>>>)

RECURSIVE StringBody(_, _)     \* the cursor at the closing quote, the line end, or the end
StringBody(s, p) ==
  LET c == Ch(s, p) IN
  IF c = EOF \/ c = LF \/ c = QUOTE THEN R(p, <<>>)
  ELSE IF c = BSLASH
       THEN LET e == Escape(s, p + 1) IN IF e.ok THEN StringBody(s, e.p) ELSE e
  ELSE StringBody(s, p + 1)

StringLit(s, p) ==      \* s[p] = QUOTE
  LET b == StringBody(s, p + 1) IN
  IF ~b.ok THEN b
  ELSE IF Ch(s, b.p) = LF THEN E(b.p, "E0020", <<>>)
  ELSE IF Ch(s, b.p) # QUOTE THEN E(b.p, "E0003", <<<<QUOTE>>>>)
  ELSE R(b.p + 1, N("StringLiteral", p, b.p + 1, Slice(s, p + 1, b.p), <<>>))

LiteralAt(s, p) ==
  IF NumberStart(s, p) THEN Number(s, p)
  ELSE IF Ch(s, p) = QUOTE THEN StringLit(s, p)
  ELSE E(p, "E0014", <<>>)

(* FUNCTION names are upper case. *)
FunctionName(v) == IsUpper(v[1]) /\ \A i \in 2..Len(v) : IsUpper(v[i]) \/ IsDigit(v[i]) \/ v[i] = 95 \/ v[i] = DASH

(***************************************************************************)
(* Expressions.                                                            *)
(***************************************************************************)
RECURSIVE InlineExpression(_, _), Expression(_, _), PlaceableAt(_, _), CallArgs(_, _),
          ArgList(_, _, _, _, _), Variants(_, _, _, _), PatternElements(_, _, _, _), PatternAt(_, _, _),
          AttributeList(_, _, _, _)

(* One call argument; named arguments have a literal value. *)
CallArgument(s, p) ==
  LET e == InlineExpression(s, p) IN
  IF ~e.ok THEN e ELSE
  LET q == SkipBlank(s, e.p) IN
  IF Ch(s, q) # COLON THEN R(q, e.n)
  ELSE IF e.n.t = "MessageReference" /\ e.n.k[2] = <<>>
       THEN LET l == LiteralAt(s, SkipBlank(s, q + 1)) IN
            IF l.ok THEN R(l.p, N("NamedArgument", p, l.p, <<>>, <<e.n.k[1], <<l.n>>>>))
            ELSE l
  ELSE E(q, "E0009", <<>>)

(* start: the cursor at "(", p: behind it or behind a comma, blank skipped. *)
ArgList(s, start, p, pos, named) ==
  LET done(q, ps, ns) ==
        IF Ch(s, q) = RPAREN
        THEN R(q + 1, N("CallArguments", start, q + 1, <<>>, <<ps, ns>>))
        ELSE E(q, "E0003", <<<<RPAREN>>>>)
  IN
  IF Ch(s, p) = RPAREN THEN done(p, pos, named)
  ELSE
  LET a == CallArgument(s, p) IN
  IF ~a.ok THEN a
  ELSE IF a.n.t = "NamedArgument" /\ \E i \in 1..Len(named) : named[i].k[1][1].v = a.n.k[1][1].v
       THEN E(a.p, "E0022", <<>>)
  ELSE IF a.n.t # "NamedArgument" /\ named # <<>> THEN E(a.p, "E0021", <<>>)
  ELSE
  LET ps == IF a.n.t = "NamedArgument" THEN pos ELSE Append(pos, a.n)
      ns == IF a.n.t = "NamedArgument" THEN Append(named, a.n) ELSE named
      q  == SkipBlank(s, a.p)
  IN  IF Ch(s, q) = COMMA THEN ArgList(s, start, SkipBlank(s, q + 1), ps, ns)
      ELSE done(q, ps, ns)

CallArgs(s, p) == ArgList(s, p, SkipBlank(s, p + 1), <<>>, <<>>)     \* s[p] = LPAREN

(* [.attribute] of a reference whose identifier ends at q: R(cursor, seq). *)
AttrAccessor(s, q) ==
  IF Ch(s, q) # DOT THEN R(q, <<>>)
  ELSE LET i == Identifier(s, q + 1) IN IF i.ok THEN R(i.p, <<i.n>>) ELSE i

TermRef(s, p) ==      \* s[p] = DASH
  LET i == Identifier(s, p + 1) IN IF ~i.ok THEN i ELSE
  LET a == AttrAccessor(s, i.p) IN IF ~a.ok THEN a ELSE
  LET o == SkipBlank(s, a.p) IN
  IF Ch(s, o) # LPAREN
  THEN R(a.p, N("TermReference", p, a.p, <<>>, <<<<i.n>>, a.n, <<>>>>))
  ELSE LET c == CallArgs(s, o) IN
       IF ~c.ok THEN c
       ELSE R(c.p, N("TermReference", p, c.p, <<>>, <<<<i.n>>, a.n, <<c.n>>>>))

(* A message reference, or a function call if "(" follows. *)
MessageRefOrCall(s, p) ==
  LET i == Identifier(s, p)
      o == SkipBlank(s, i.p)
  IN
  IF Ch(s, o) = LPAREN
  THEN IF ~FunctionName(i.n.v) THEN E(i.p, "E0008", <<>>)
       ELSE LET c == CallArgs(s, o) IN
            IF ~c.ok THEN c
            ELSE R(c.p, N("FunctionReference", p, c.p, <<>>, <<<<i.n>>, <<c.n>>>>))
  ELSE LET a == AttrAccessor(s, i.p) IN
       IF ~a.ok THEN a
       ELSE R(a.p, N("MessageReference", p, a.p, <<>>, <<<<i.n>>, a.n>>))

InlineExpression(s, p) ==
  LET c == Ch(s, p) IN
  IF c = LBRACE THEN PlaceableAt(s, p)
  ELSE IF NumberStart(s, p) THEN Number(s, p)
  ELSE IF c = QUOTE THEN StringLit(s, p)
  ELSE IF c = DOLLAR
       THEN LET i == Identifier(s, p + 1) IN
            IF i.ok THEN R(i.p, N("VariableReference", p, i.p, <<>>, <<<<i.n>>>>)) ELSE i
  ELSE IF c = DASH THEN TermRef(s, p)
  ELSE IF IsLetter(c) THEN MessageRefOrCall(s, p)
  ELSE E(p, "E0028", <<>>)

(* What may select: literals, variables, calls and term attributes. *)
SelectorError(n) ==
  CASE n.t = "MessageReference" -> IF n.k[2] = <<>> THEN "E0016" ELSE "E0018"
    [] n.t = "TermReference"    -> IF n.k[2] = <<>> THEN "E0017" ELSE ""
    [] n.t \in {"StringLiteral", "NumberLiteral", "VariableReference", "FunctionReference"} -> ""
    [] OTHER -> "E0029"

VariantStart(s, p) ==
  LET q == IF Ch(s, p) = STAR THEN p + 1 ELSE p
  IN  Ch(s, q) = LBRACK /\ Raw(s, q + 1) # LBRACK

VariantKey(s, p) ==
  IF p > Len(s) THEN E(p, "E0013", <<>>)
  ELSE IF IsDigit(s[p]) \/ s[p] = DASH THEN Number(s, p)
  ELSE Identifier(s, p)

(* maybe_pattern: an inline pattern on the same line, or a block pattern   *)
(* on a following line.  n = <<>> when there is none.                      *)
ValueContinuation(s, q) ==
  LET r == SkipInline(s, q)
      c == Ch(s, r)
  IN  IF c = LBRACE THEN TRUE
      ELSE IF r = q THEN FALSE
      ELSE c \notin {EOF, RBRACE, DOT, LBRACK, STAR}

MaybePattern(s, p) ==
  LET q == SkipInline(s, p)
      c == Ch(s, q)
      b == BlankBlock(s, q, 0)
      wrap(r) == IF r.ok THEN R(r.p, <<r.n>>) ELSE r
  IN  IF c # EOF /\ c # LF THEN wrap(PatternAt(s, q, FALSE))
      ELSE IF ValueContinuation(s, b.p) THEN wrap(PatternAt(s, b.p, TRUE))
      ELSE R(p, <<>>)

VariantAt(s, p, hasDefault) ==
  LET star == Ch(s, p) = STAR
      q    == IF star THEN p + 1 ELSE p
  IN
  IF star /\ hasDefault THEN E(p, "E0015", <<>>) ELSE
  LET k == VariantKey(s, SkipBlank(s, q + 1)) IN IF ~k.ok THEN k ELSE
  LET c == SkipBlank(s, k.p) IN
  IF Ch(s, c) # RBRACK THEN E(c, "E0003", <<<<RBRACK>>>>) ELSE
  LET v == MaybePattern(s, c + 1) IN IF ~v.ok THEN v ELSE
  IF v.n = <<>> THEN E(c + 1, "E0012", <<>>)
  ELSE R(v.p, N("Variant", p, v.p, IF star THEN <<1>> ELSE <<0>>, <<<<k.n>>, v.n>>))

Variants(s, p, acc, hasDefault) ==      \* blank before p already skipped
  IF ~VariantStart(s, p)
  THEN IF acc = <<>> THEN E(p, "E0011", <<>>)
       ELSE IF ~hasDefault THEN E(p, "E0010", <<>>)
       ELSE R(p, acc)
  ELSE LET v == VariantAt(s, p, hasDefault) IN
       IF ~v.ok THEN v
       ELSE IF Ch(s, v.p) = EOF THEN Variants(s, v.p, Append(acc, v.n), hasDefault \/ v.n.v = <<1>>)
       ELSE IF Ch(s, v.p) # LF THEN E(v.p, "E0003", <<LineEndErr>>)
       ELSE Variants(s, SkipBlank(s, v.p), Append(acc, v.n), hasDefault \/ v.n.v = <<1>>)

Expression(s, p) ==
  LET sel == InlineExpression(s, p) IN IF ~sel.ok THEN sel ELSE
  LET q == SkipBlank(s, sel.p) IN
  IF Ch(s, q) = DASH /\ Raw(s, q + 1) = GT
  THEN LET bad == SelectorError(sel.n)
           l   == SkipInline(s, q + 2)
       IN
       IF bad # "" THEN E(q, bad, <<>>)
       ELSE IF Ch(s, l) # LF /\ Ch(s, l) # EOF THEN E(l, "E0003", <<LineEndErr>>)
       ELSE LET vs == Variants(s, SkipBlank(s, l), <<>>, FALSE) IN
            IF ~vs.ok THEN vs
            ELSE R(vs.p, N("SelectExpression", p, vs.p, <<>>, <<<<sel.n>>, vs.n>>))
  ELSE IF sel.n.t = "TermReference" /\ sel.n.k[2] # <<>> /\ Ch(s, q) # DASH
       THEN E(q, "E0019", <<>>)
  ELSE R(q, sel.n)

PlaceableAt(s, p) ==      \* s[p] = LBRACE
  LET e == Expression(s, SkipBlank(s, p + 1)) IN
  IF ~e.ok THEN e
  ELSE IF Ch(s, e.p) # RBRACE THEN E(e.p, "E0003", <<<<RBRACE>>>>)
  ELSE R(e.p + 1, N("Placeable", p, e.p + 1, <<>>, <<<<e.n>>>>))

(***************************************************************************)
(* Patterns.  The raw elements of a pattern are text runs, placeables and  *)
(* indents (the line breaks and leading spaces of each continuation line). *)
(***************************************************************************)
TextStop(s, p) ==      \* "{", "}", LF or CRLF
  IF s[p] = 13 THEN IsCRLF(s, p) ELSE s[p] \in {123, 125, 10}
TextEnd(s, p) ==
  LET n == Len(s) IN
  IF p > n THEN p
  ELSE CHOOSE q \in p..(n + 1) :
         (IF q > n THEN TRUE ELSE IF s[q] \notin {123, 125, 10, 13} THEN FALSE ELSE TextStop(s, q))
         /\ \A r \in p..(q - 1) : s[r] \notin {123, 125, 10, 13} \/ ~TextStop(s, r)

NoIndent == 1000000000      \* no continuation line seen yet

PatternElements(s, p, acc, common) ==
  LET c == Ch(s, p) IN
  IF c = EOF THEN R(p, [els |-> acc, common |-> common])
  ELSE IF c = LF
       THEN LET b == BlankBlock(s, p, 0) IN
            IF ~ValueContinuation(s, b.p) THEN R(p, [els |-> acc, common |-> common])
            ELSE LET e == SkipInline(s, b.p) IN
                 PatternElements(s, e,
                    Append(acc, N("Indent", p, e, Rep(LF, b.n) \o Rep(SP, e - b.p), <<>>)),
                    MinOf(common, e - b.p))
  ELSE IF c = RBRACE THEN E(p, "E0027", <<>>)
  ELSE IF c = LBRACE
       THEN LET pl == PlaceableAt(s, p) IN
            IF pl.ok THEN PatternElements(s, pl.p, Append(acc, pl.n), common) ELSE pl
  ELSE LET q == TextEnd(s, p) IN
       PatternElements(s, q, Append(acc, N("TextElement", p, q, Slice(s, p, q), <<>>)), common)

(* Remove the common indent, merge adjacent text, trim the end. *)
RECURSIVE Dedent(_, _, _)
Dedent(els, common, acc) ==
  IF els = <<>> THEN acc ELSE
  LET e == Head(els)
      v == IF e.t = "Indent" THEN SubSeq(e.v, 1, Len(e.v) - common) ELSE e.v
      last == acc[Len(acc)]
  IN  IF e.t = "Placeable" THEN Dedent(Tail(els), common, Append(acc, e))
      ELSE IF e.t = "Indent" /\ v = <<>> THEN Dedent(Tail(els), common, acc)
      ELSE IF acc # <<>> /\ last.t = "TextElement"
           THEN Dedent(Tail(els), common,
                       [acc EXCEPT ![Len(acc)] = [last EXCEPT !.v = last.v \o v, !.b = e.b]])
      ELSE Dedent(Tail(els), common, Append(acc, [e EXCEPT !.t = "TextElement", !.v = v]))

TrimEnd(v) ==      \* without trailing spaces, LF and CR
  IF v = <<>> \/ v[Len(v)] \notin {32, 10, 13} THEN v
  ELSE LET n == Len(v)
           k == CHOOSE k \in 1..n : (k = n \/ v[n - k] \notin {32, 10, 13}) /\ \A r \in 0..(k - 1) : v[n - r] \in {32, 10, 13}
       IN  SubSeq(v, 1, n - k)

TrimPattern(els) ==
  IF els = <<>> \/ els[Len(els)].t # "TextElement" THEN els
  ELSE LET v == TrimEnd(els[Len(els)].v) IN
       IF v = <<>> THEN SubSeq(els, 1, Len(els) - 1)
       ELSE [els EXCEPT ![Len(els)].v = v]

PatternAt(s, p, isBlock) ==
  LET q  == SkipInline(s, p)
      es == IF isBlock
            THEN PatternElements(s, q, <<N("Indent", p, q, Rep(SP, q - p), <<>>)>>, q - p)
            ELSE PatternElements(s, p, <<>>, NoIndent)
  IN  IF ~es.ok THEN es
      ELSE R(es.p, N("Pattern", p, es.p, <<>>, <<TrimPattern(Dedent(es.n.els, es.n.common, <<>>))>>))

(***************************************************************************)
(* Entries.                                                                *)
(***************************************************************************)
AttributeAt(s, p) ==      \* s[p] = DOT
  LET i == Identifier(s, p + 1) IN IF ~i.ok THEN i ELSE
  LET q == SkipInline(s, i.p) IN
  IF Ch(s, q) # EQUALS THEN E(q, "E0003", <<<<EQUALS>>>>) ELSE
  LET v == MaybePattern(s, q + 1) IN IF ~v.ok THEN v ELSE
  IF v.n = <<>> THEN E(q + 1, "E0012", <<>>)
  ELSE R(v.p, N("Attribute", p, v.p, <<>>, <<<<i.n>>, v.n>>))

AttributeList(s, p, acc, dummy) ==
  LET q == SkipBlank(s, p) IN
  IF Ch(s, q) # DOT THEN R(p, acc)
  ELSE LET a == AttributeAt(s, q) IN
       IF a.ok THEN AttributeList(s, a.p, Append(acc, a.n), dummy) ELSE a

MessageAt(s, p) ==
  LET i == Identifier(s, p) IN IF ~i.ok THEN i ELSE
  LET q == SkipInline(s, i.p) IN
  IF Ch(s, q) # EQUALS THEN E(q, "E0003", <<<<EQUALS>>>>) ELSE
  LET v == MaybePattern(s, q + 1) IN IF ~v.ok THEN v ELSE
  LET as == AttributeList(s, v.p, <<>>, 0) IN IF ~as.ok THEN as ELSE
  IF v.n = <<>> /\ as.n = <<>> THEN E(as.p, "E0005", <<i.n.v>>)
  ELSE R(as.p, N("Message", p, as.p, <<>>, <<<<i.n>>, v.n, as.n, <<>>>>))

TermAt(s, p) ==      \* s[p] = DASH
  LET i == Identifier(s, p + 1) IN IF ~i.ok THEN i ELSE
  LET q == SkipInline(s, i.p) IN
  IF Ch(s, q) # EQUALS THEN E(q, "E0003", <<<<EQUALS>>>>) ELSE
  LET v == MaybePattern(s, q + 1) IN IF ~v.ok THEN v ELSE
  IF v.n = <<>> THEN E(q + 1, "E0006", <<i.n.v>>) ELSE
  LET as == AttributeList(s, v.p, <<>>, 0) IN IF ~as.ok THEN as ELSE
  R(as.p, N("Term", p, as.p, <<>>, <<<<i.n>>, v.n, as.n, <<>>>>))

RECURSIVE HashRun(_, _, _)
HashRun(s, p, max) == IF max > 0 /\ Raw(s, p) = HASH THEN 1 + HashRun(s, p + 1, max - 1) ELSE 0

LineEnd(s, p) ==      \* the cursor at the end of the line
  LET n == Len(s) IN
  IF p > n THEN p
  ELSE CHOOSE q \in p..(n + 1) :
         (IF q > n THEN TRUE ELSE s[q] = 10 \/ (s[q] = 13 /\ IsCRLF(s, q)))
         /\ \A r \in p..(q - 1) : s[r] # 10 /\ ~(s[r] = 13 /\ IsCRLF(s, r))

CommentType(level) == CASE level = 1 -> "Comment" [] level = 2 -> "GroupComment" [] level = 3 -> "ResourceComment"

(* The next line continues a comment of this level: exactly level "#",     *)
(* then a space or the line end (the end of the text included).            *)
CommentContinues(s, p, level) ==
  /\ Ch(s, p) = LF
  /\ HashRun(s, Nx(s, p), level) = level
  /\ Ch(s, Nx(s, p) + level) \in {SP, LF, EOF}

RECURSIVE CommentLines(_, _, _, _, _)
CommentLines(s, start, p, level, acc) ==      \* p: behind the hashes
  LET c == Ch(s, p)
      blank == c = LF \/ c = EOF
      q == IF blank THEN p ELSE LineEnd(s, p + 1)
      text == IF blank THEN acc ELSE acc \o Slice(s, p + 1, q)
  IN  IF ~blank /\ c # SP THEN E(p, "E0003", <<<<SP>>>>)
      ELSE IF CommentContinues(s, q, level)
           THEN CommentLines(s, start, Nx(s, q) + level, level, Append(text, LF))
      ELSE R(q, N(CommentType(level), start, q, text, <<>>))

CommentAt(s, p) ==      \* s[p] = HASH
  LET level == HashRun(s, p, 3) IN CommentLines(s, p, p + level, level, <<>>)

EntryProduction(s, p) ==
  LET c == Ch(s, p) IN
  IF c = HASH THEN CommentAt(s, p)
  ELSE IF c = DASH THEN TermAt(s, p)
  ELSE IF IsLetter(c) THEN MessageAt(s, p)
  ELSE E(p, "E0002", <<>>)

(* An entry must end at a line end (consumed) or at the end of the text. *)
StrictEntry(s, p) ==
  LET e == EntryProduction(s, p) IN
  IF ~e.ok THEN e
  ELSE IF Ch(s, e.p) = EOF THEN e
  ELSE IF Ch(s, e.p) = LF THEN R(Nx(s, e.p), e.n)
  ELSE E(e.p, "E0003", <<LineEndErr>>)

(***************************************************************************)
(* Error recovery.  Junk runs from the start of the broken entry to the    *)
(* next line that looks like the start of an entry.                        *)
(***************************************************************************)
LastLFBefore(s, p) ==      \* largest q < p with s[q] = LF, else 0
  p - (CHOOSE k \in 1..p : (IF k = p THEN TRUE ELSE s[p - k] = 10) /\ \A r \in 1..(k - 1) : s[p - r] # 10)

EntryStartLine(s, p) ==
  LET c == Raw(s, p) IN
  \/ IsLetter(c) \/ c = DASH \/ c = HASH
  \/ /\ c = SLASH  /\ Raw(s, Nx(s, p)) = SLASH       \* Syntax 0.4 comments and sections
  \/ /\ c = LBRACK /\ Raw(s, Nx(s, p)) = LBRACK

(* The first line start after p (p itself may be at a line end) that opens *)
(* an entry, or the end of the text.                                       *)
SkipToEntry(s, p) ==
  LET n == Len(s) IN
  IF p > n THEN p
  ELSE CHOOSE q \in (p + 1)..(n + 1) :
         (IF q > n THEN TRUE ELSE s[q - 1] = 10 /\ EntryStartLine(s, q))
         /\ \A r \in (p + 1)..(q - 1) : ~(s[r - 1] = 10 /\ EntryStartLine(s, r))

ErrorMessage(code, a) ==
  CASE code = "E0002" -> T("Expected an entry start")
    [] code = "E0003" -> T("Expected token: \"") \o a[1] \o T("\"")
    [] code = "E0004" -> T("Expected a character from range: \"") \o a[1] \o T("\"")
    [] code = "E0005" -> T("Expected message \"") \o a[1] \o T("\" to have a value or attributes")
    [] code = "E0006" -> T("Expected term \"-") \o a[1] \o T("\" to have a value")
    [] code = "E0008" -> T("The callee has to be an upper-case identifier or a term")
    [] code = "E0009" -> T("The argument name has to be a simple identifier")
    [] code = "E0010" -> T("Expected one of the variants to be marked as default (*)")
    [] code = "E0011" -> T("Expected at least one variant after \"->\"")
    [] code = "E0012" -> T("Expected value")
    [] code = "E0013" -> T("Expected variant key")
    [] code = "E0014" -> T("Expected literal")
    [] code = "E0015" -> T("Only one variant can be marked as default (*)")
    [] code = "E0016" -> T("Message references cannot be used as selectors")
    [] code = "E0017" -> T("Terms cannot be used as selectors")
    [] code = "E0018" -> T("Attributes of messages cannot be used as selectors")
    [] code = "E0019" -> T("Attributes of terms cannot be used as placeables")
    [] code = "E0020" -> T("Unterminated string expression")
    [] code = "E0021" -> T("Positional arguments must not follow named arguments")
    [] code = "E0022" -> T("Named arguments must be unique")
    [] code = "E0025" -> T("Unknown escape sequence: \\") \o (IF a = <<>> THEN T("None") ELSE a[1]) \o T(".")
    [] code = "E0026" -> T("Invalid Unicode escape sequence: ") \o a[1] \o T(".")
    [] code = "E0027" -> T("Unbalanced closing brace in TextElement.")
    [] code = "E0028" -> T("Expected an inline expression")
    [] code = "E0029" -> T("Expected simple expression as selector")

Annotation(at, code, args) ==
  N("Annotation", at, at, T(code),
    <<[i \in 1..Len(args) |-> N("Argument", at, at, args[i], <<>>)],
      <<N("Text", at, at, ErrorMessage(code, args), <<>>)>>>>)

(* One entry, or Junk; the cursor is where the next one may start. *)
EntryAt(s, p) ==
  LET e == StrictEntry(s, p) IN
  IF e.ok THEN e ELSE
  LET nl   == LastLFBefore(s, e.p)
      from == IF nl > p THEN nl ELSE e.p
      q    == SkipToEntry(s, from)
      at   == MinOf(q, e.p)
  IN  R(q, N("Junk", p, q, Slice(s, p, q), <<<<Annotation(at, e.c, e.a)>>>>))
=============================================================================
