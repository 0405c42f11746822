--------------------------- MODULE FluentResolver ---------------------------
(***************************************************************************)
(* Formatting of patterns (C16 - C22, C24).                                *)
(*                                                                         *)
(* The world W of a call has the bundle's entries (messages, terms: by     *)
(* name), its functions (funs), isolation (iso), locale data (loc) and the *)
(* table of date texts (dates).  The scope E has the arguments in force    *)
(* (args), whether a missing one is an error (miss), the patterns being    *)
(* resolved (act), the entry the expression belongs to (own) and the number of  *)
(* elements of the pattern it is in (lone).  The                           *)
(* state S has the errors so far, the number of pattern elements expanded  *)
(* (n), the function calls made, how many results of functions were given  *)
(* from outside (g), and the exception that ends it all (dead).            *)
(*                                                                         *)
(* Values: k = "s" string, "n" unresolved (s: its name), "d" number        *)
(* (f: a Fluent number with options o, otherwise a plain one), "t" date or *)
(* datetime, "o" anything else (s: its type).                              *)
(***************************************************************************)
EXTENDS FluentNumbers

MAXPARTS == 1000
MAXLENGTH == 2500
FSI == 8296
PDI == 8297

NoOpts == <<>>       \* the function with empty domain
StrV(s) == [k |-> "s", s |-> s]
NoneV(s) == [k |-> "n", s |-> s]
NumV(n, o) == [k |-> "d", n |-> n, f |-> TRUE, o |-> o]

Res(v, S) == [v |-> v, S |-> S]
Err(S, c, m) == [S EXCEPT !.errs = Append(@, [c |-> c, m |-> m])]
Die(S, c) == [S EXCEPT !.dead = c]
Alive(S) == S.dead = ""
S0 == [errs |-> <<>>, n |-> 0, calls |-> <<>>, g |-> 0, dead |-> ""]

(***************************************************************************)
(* Options.  An option that was not given, or given as None, is absent.    *)
(***************************************************************************)
NumberOptions == TLCEval({T("style"), T("type"), T("currency"), T("currencyDisplay"), T("useGrouping"), T("minimumIntegerDigits"),
                  T("minimumFractionDigits"), T("maximumFractionDigits"), T("minimumSignificantDigits"), T("maximumSignificantDigits")})
DateOptions == TLCEval({T("timeZone"), T("hour12"), T("weekday"), T("era"), T("year"), T("month"), T("day"), T("hour"), T("minute"),
                T("second"), T("timeZoneName"), T("dateStyle"), T("timeStyle")})
Styles == TLCEval({T("decimal"), T("currency"), T("percent")})
NumberTypes == TLCEval({T("ordinal"), T("cardinal")})
Displays == TLCEval({T("symbol"), T("code"), T("name")})
DateStyles == TLCEval({T("full"), T("long"), T("medium"), T("short")})

Has(f, x) == x \in DOMAIN f
IsNone(v) == v.k = "o" /\ v.s = T("NoneType")
Given(o, x) == Has(o, x) /\ ~IsNone(o[x])
OptText(o, x, default) == IF Given(o, x) /\ o[x].k = "s" THEN o[x].s ELSE default
OneOf(o, x, set) == Has(o, x) => o[x].k = "s" /\ o[x].s \in set
(* Numbers and strings are taken as true unless they are zero or empty. *)
Truth(v) == CASE v.k = "d" -> ~IsZero(v.n) [] v.k = "s" -> v.s # <<>> [] v.k = "o" -> ~IsNone(v) [] OTHER -> TRUE
IntOpt(o, x) == IF Given(o, x) THEN SmallInt(IntPart(o[x].n)) ELSE -1
IsCount(o, x) == Given(o, x) => o[x].k = "d" /\ o[x].n.x = 0 /\ ~o[x].n.neg
Counts == TLCEval({T("minimumIntegerDigits"), T("minimumFractionDigits"), T("maximumFractionDigits"), T("minimumSignificantDigits"), T("maximumSignificantDigits")})

(* Options kw given for a value with options base: error class, or "". *)
BadNumberOptions(base, kw) ==
  IF \E x \in DOMAIN kw : x \notin NumberOptions THEN "TypeError"
  ELSE IF ~OneOf(kw, T("style"), Styles) \/ ~OneOf(kw, T("type"), NumberTypes) \/ ~OneOf(kw, T("currencyDisplay"), Displays) THEN "ValueError"
  ELSE LET o == kw @@ base IN
       IF OptText(o, T("style"), T("decimal")) = T("currency") /\ ~Given(o, T("currency")) THEN "ValueError" ELSE ""
BadDateOptions(dt, kw) ==
  IF Has(kw, T("timeStyle")) /\ ~dt THEN "TypeError"
  ELSE IF \E x \in DOMAIN kw : x \notin DateOptions THEN "TypeError"
  ELSE IF \E x \in {T("dateStyle"), T("timeStyle")} : Has(kw, x) /\ ~IsNone(kw[x]) /\ ~(kw[x].k = "s" /\ kw[x].s \in DateStyles) THEN "ValueError"
  ELSE ""

Effective(o) ==
  [style |-> OptText(o, T("style"), T("decimal")), cur |-> OptText(o, T("currency"), <<>>), disp |-> OptText(o, T("currencyDisplay"), T("symbol")),
   grouping |-> (~Has(o, T("useGrouping")) \/ Truth(o[T("useGrouping")])),
   minInt |-> IntOpt(o, T("minimumIntegerDigits")), minFrac |-> IntOpt(o, T("minimumFractionDigits")), maxFrac |-> IntOpt(o, T("maximumFractionDigits")),
   minSig |-> IntOpt(o, T("minimumSignificantDigits")), maxSig |-> IntOpt(o, T("maximumSignificantDigits"))]

(***************************************************************************)
(* Dates: dates[id] lists, for each time zone option the run may use, the  *)
(* date in each style, the time in each style, and the locale's pattern    *)
(* that puts both together (pieces before, between, after; which first).   *)
(***************************************************************************)
DateIn(W, v, tz) == W.dates[v.id][CHOOSE i \in 1..Len(W.dates[v.id]) : W.dates[v.id][i].tz = tz]
KnownZone(W, v, tz) == \E i \in 1..Len(W.dates[v.id]) : W.dates[v.id][i].tz = tz
StyleIx(s) == CASE s = T("full") -> 1 [] s = T("long") -> 2 [] s = T("medium") -> 3 [] s = T("short") -> 4
FormatDate(W, v) ==
  LET tz == IF v.dt THEN OptText(v.o, T("timeZone"), <<>>) ELSE <<>>
      r == DateIn(W, v, tz)
      ds == OptText(v.o, T("dateStyle"), <<>>)
      ts == OptText(v.o, T("timeStyle"), <<>>)
      both == r.both[StyleIx(ds)]
  IN IF ds = <<>> /\ ts = <<>> THEN r.date[3]
     ELSE IF ds = <<>> THEN r.time[StyleIx(ts)]
     ELSE IF ts = <<>> THEN r.date[StyleIx(ds)]
     ELSE FlatText([i \in 1..Len(both) |-> IF both[i].d = "date" THEN r.date[StyleIx(ds)] ELSE IF both[i].d = "time" THEN r.time[StyleIx(ts)] ELSE both[i].s])

(***************************************************************************)
(* The text of a value, if it is a Fluent value (others stay what they     *)
(* are); strings beyond the length limit end the call.                     *)
(***************************************************************************)
Show(W, v, S) ==
  CASE v.k = "s" -> IF Len(v.s) > MAXLENGTH THEN Res(v, Die(S, "ValueError")) ELSE Res(v, S)
    [] v.k = "n" -> Res(StrV(IF v.s = <<>> THEN T("???") ELSE v.s), S)
    [] v.k = "d" -> IF ~v.f THEN Res(v, S)
                    ELSE IF \E x \in Counts : ~IsCount(v.o, x) THEN Res(v, Die(S, "?"))
                    ELSE Res(StrV(FormatNumber(W.loc, v.n, Effective(v.o))), S)
    [] v.k = "t" -> IF ~v.f THEN Res(v, S)
                    ELSE IF v.dt /\ ~KnownZone(W, v, OptText(v.o, T("timeZone"), <<>>)) THEN Res(v, Die(S, "LookupError"))
                    ELSE Res(StrV(FormatDate(W, v)), S)
    [] OTHER -> Res(v, S)

(***************************************************************************)
(* Patterns made of text and string literals only are plain strings.       *)
(***************************************************************************)
RECURSIVE PlainX(_), PlainText(_)
PlainX(x) == x.t \in {"TextElement", "StringLiteral"} \/ (x.t = "Placeable" /\ PlainX(x.k[1][1]))
PlainText(x) == CASE x.t = "TextElement" -> x.v [] x.t = "StringLiteral" -> Decode(x.v) [] OTHER -> PlainText(x.k[1][1])
Plain(pat) == \A i \in 1..Len(pat.k[1]) : PlainX(pat.k[1][i])

Name(x) == x.k[1][1].v
RefId(x) == (IF x.t = "TermReference" THEN <<DASH>> ELSE <<>>) \o Name(x) \o (IF x.k[2] = <<>> THEN <<>> ELSE <<DOT>> \o x.k[2][1].v)

AttributePos(node, name) == {i \in 1..Len(node.k[3]) : Name(node.k[3][i]) = name}
MaxPos(s) == CHOOSE i \in s : \A j \in s : j <= i
(* An entry's pattern: <<it>>, or <<>> if a message has no value. *)
AttributePattern(node, name) == node.k[3][MaxPos(AttributePos(node, name))].k[2]
ValuePattern(node) == node.k[2]

SameText(a, b) == a = b
Matches(W, v, key) ==
  CASE v.k = "s" -> key.t = "Identifier" /\ SameText(v.s, key.v)
    [] v.k = "d" -> IF key.t = "NumberLiteral" THEN SameNumber(v.n, LiteralNumber(key.v))
                    ELSE key.v = Category(IF v.f /\ OptText(v.o, T("type"), T("cardinal")) = T("ordinal") THEN W.loc.ordinals ELSE W.loc.plurals, v.n)
    [] OTHER -> FALSE

(***************************************************************************)
(* Functions.  A function of the application is described by what it does: *)
(* return an argument (arg n, kw name) or a value, or raise; or its results *)
(* are given (W.given), where it formats something itself.  names: the     *)
(* names of the named arguments kw in the order written.                   *)
(***************************************************************************)
Raises(name, S, c, m) == Res(NoneV(name \o T("()")), Err(S, c, m))
PositionalOf(args, kw, name) == IF args = <<>> THEN kw[name] ELSE args[1]
OneArgument(args, kw, name) == (Len(args) = 1 /\ ~Has(kw, name)) \/ (Len(args) = 0 /\ Has(kw, name))
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

CallFunction(W, name, args, kw, names, S) ==
  IF ~Has(W.funs, name) THEN Raises(name, S, "FluentReferenceError", T("Unknown function: ") \o name)
  ELSE LET fn == W.funs[name] IN
  CASE fn.do = "NUMBER" ->
         IF ~OneArgument(args, kw, T("number")) THEN Raises(name, S, "TypeError", <<>>)
         ELSE LET a == PositionalOf(args, kw, T("number"))
                  o == Without(kw, T("number"))
              IN IF a.k = "n" THEN Res(a, S)
                 ELSE IF a.k # "d" THEN Raises(name, S, "TypeError", <<>>)
                 ELSE LET base == IF a.f THEN a.o ELSE NoOpts
                          bad == IF o = NoOpts /\ a.f THEN "" ELSE BadNumberOptions(base, o)
                      IN IF bad # "" THEN Raises(name, S, bad, <<>>) ELSE Res(NumV(a.n, o @@ base), S)
    [] fn.do = "DATETIME" ->
         IF ~OneArgument(args, kw, T("dt")) THEN Raises(name, S, "TypeError", <<>>)
         ELSE LET a == PositionalOf(args, kw, T("dt"))
                  o == Without(kw, T("dt"))
              IN IF a.k = "n" THEN Res(a, S)
                 ELSE IF a.k # "t" THEN Raises(name, S, "TypeError", <<>>)
                 ELSE LET bad == BadDateOptions(a.dt, o)
                      IN IF bad # "" THEN Raises(name, S, bad, <<>>) ELSE Res([a EXCEPT !.f = TRUE, !.o = o @@ (IF a.f THEN a.o ELSE NoOpts)], S)
    [] OTHER ->
         LET S1 == [S EXCEPT !.calls = Append(@, [f |-> name, args |-> args, kw |-> kw, names |-> names])] IN
         CASE fn.do = "arg" -> IF Len(args) >= fn.i THEN Res(args[fn.i], S1) ELSE Raises(name, S1, "IndexError", <<>>)
           [] fn.do = "kw" -> IF Has(kw, fn.name) THEN Res(kw[fn.name], S1) ELSE Raises(name, S1, "KeyError", <<>>)
           [] fn.do = "const" -> Res(fn.v, S1)
           [] fn.do = "given" -> IF S.g < Len(W.given) THEN Res(StrV(W.given[S.g + 1]), [S1 EXCEPT !.g = @ + 1]) ELSE Res(NoneV(name), Die(S1, "no result given"))
           [] fn.do = "raise" -> Raises(name, S1, fn.cls, fn.msg)

(***************************************************************************)
(* Evaluation.                                                             *)
(***************************************************************************)
RECURSIVE EvalPattern(_, _, _, _), EvalElements(_, _, _, _), EvalElement(_, _, _, _), EvalPlaceable(_, _, _, _), Eval(_, _, _, _),
          EvalList(_, _, _, _, _), EvalNamed(_, _, _, _, _)

EvalPattern(W, E, pat, S) ==
  IF Plain(pat) THEN Res(StrV(FlatText([i \in 1..Len(pat.k[1]) |-> PlainText(pat.k[1][i])])), S)
  ELSE LET id == <<E.own, pat.a>> IN
  IF id \in E.act THEN Res(NoneV(<<>>), Err(S, "FluentCyclicReferenceError", T("Cyclic reference")))
  ELSE IF Len(pat.k[1]) > MAXPARTS - S.n THEN Res(NoneV(<<>>), Die(S, "ValueError"))
  ELSE LET r == EvalElements(W, [E EXCEPT !.act = @ \cup {id}, !.lone = Len(pat.k[1])], pat.k[1], S) IN
       IF Alive(r.S) THEN Res(r.v, [r.S EXCEPT !.n = @ + Len(pat.k[1])]) ELSE r

(* The elements' texts joined; something that isn't text (and didn't come  *)
(* to grief earlier) ends the call after the last one.                     *)
EvalElement(W, E, el, S) ==
  LET r == IF el.t = "TextElement" THEN Res(StrV(el.v), S)
           ELSE IF PlainX(el) THEN Res(StrV(PlainText(el)), S)
           ELSE IF E.lone = 1 THEN LET q == Eval(W, E, el.k[1][1], S) IN IF Alive(q.S) THEN Show(W, q.v, q.S) ELSE q
           ELSE EvalPlaceable(W, E, el, S)
  IN IF Alive(r.S) THEN Show(W, r.v, r.S) ELSE r

EvalElements(W, E, els, S) ==
  LET step(a, el) ==
        IF ~Alive(a.S) THEN a
        ELSE LET r == EvalElement(W, E, el, a.S)
             IN [S |-> r.S, ok |-> a.ok /\ r.v.k = "s", text |-> IF Alive(r.S) /\ r.v.k = "s" THEN a.text \o r.v.s ELSE a.text]
      z == FoldLeft(step, [S |-> S, ok |-> TRUE, text |-> <<>>], els)
  IN IF ~Alive(z.S) THEN Res(NoneV(<<>>), z.S)
     ELSE IF z.ok THEN Res(StrV(z.text), z.S)
     ELSE Res(NoneV(<<>>), Die(z.S, "TypeError"))

EvalPlaceable(W, E, x, S) ==
  LET q == Eval(W, E, x.k[1][1], S)
      r == IF Alive(q.S) THEN Show(W, q.v, q.S) ELSE q
  IN IF ~Alive(r.S) \/ ~W.iso THEN r
     ELSE IF r.v.k # "s" THEN Res(r.v, Die(r.S, "TypeError"))
     ELSE Res(StrV(<<FSI>> \o r.v.s \o <<PDI>>), r.S)

EvalList(W, E, xs, S, acc) ==
  IF xs = <<>> THEN Res(acc, S)
  ELSE LET r == Eval(W, E, Head(xs), S) IN
       IF Alive(r.S) THEN EvalList(W, E, Tail(xs), r.S, Append(acc, r.v)) ELSE r

EvalNamed(W, E, xs, S, acc) ==
  IF xs = <<>> THEN Res(acc, S)
  ELSE LET r == Eval(W, E, Head(xs).k[2][1], S) IN
       IF Alive(r.S) THEN EvalNamed(W, E, Tail(xs), r.S, (Name(Head(xs)) :> r.v) @@ acc) ELSE r

UnknownEntry(x) ==
  IF x.k[2] # <<>> THEN T("Unknown attribute: ") \o RefId(x)
  ELSE IF x.t = "TermReference" THEN T("Unknown term: ") \o RefId(x) ELSE T("Unknown message: ") \o RefId(x)

EvalEntry(W, E, x, S) ==
  LET ents == IF x.t = "TermReference" THEN W.terms ELSE W.msgs
      unknown == Res(NoneV(<<LBRACE>> \o RefId(x) \o <<RBRACE>>), Err(S, "FluentReferenceError", UnknownEntry(x)))
  IN IF ~Has(ents, Name(x)) THEN unknown
     ELSE LET e == ents[Name(x)] IN
     IF x.k[2] # <<>> /\ AttributePos(e.node, x.k[2][1].v) = {} THEN unknown
     ELSE LET pat == IF x.k[2] # <<>> THEN AttributePattern(e.node, x.k[2][1].v) ELSE ValuePattern(e.node) IN
          IF pat = <<>> THEN Res(NoneV(RefId(x)), Err(S, "FluentReferenceError", T("No pattern: ") \o RefId(x)))
          ELSE EvalPattern(W, [E EXCEPT !.own = e.gen], pat[1], S)

Eval(W, E, x, S) ==
  CASE x.t = "StringLiteral" -> Res(StrV(Decode(x.v)), S)
    [] x.t = "NumberLiteral" -> Res(NumV(LiteralNumber(x.v), NoOpts), S)
    [] x.t = "Placeable" -> IF PlainX(x) THEN Res(StrV(PlainText(x)), S) ELSE EvalPlaceable(W, E, x, S)
    [] x.t = "VariableReference" ->
         IF ~Has(E.args, Name(x))
         THEN Res(NoneV(Name(x)), IF E.miss THEN Err(S, "FluentReferenceError", T("Unknown external: ") \o Name(x)) ELSE S)
         ELSE LET v == E.args[Name(x)] IN
              IF v.k = "o" THEN Res(NoneV(Name(x)), Err(S, "TypeError", T("Unsupported external type: ") \o Name(x)))
              ELSE Res(v, S)
    [] x.t = "MessageReference" -> EvalEntry(W, E, x, S)
    [] x.t = "TermReference" ->
         IF x.k[3] = <<>> THEN EvalEntry(W, [E EXCEPT !.args = NoOpts, !.miss = FALSE], x, S)
         ELSE LET ca == x.k[3][1]
                  S1 == IF ca.k[1] = <<>> THEN S
                        ELSE Err(S, "FluentFormatError", T("Ignored positional arguments passed to term '") \o RefId(x) \o T("'"))
                  r == EvalNamed(W, E, ca.k[2], S1, NoOpts)
              IN IF Alive(r.S) THEN EvalEntry(W, [E EXCEPT !.args = r.v, !.miss = FALSE], x, r.S) ELSE r
    [] x.t = "FunctionReference" ->
         LET a == EvalList(W, E, x.k[2][1].k[1], S, <<>>) IN
         IF ~Alive(a.S) THEN a
         ELSE LET b == EvalNamed(W, E, x.k[2][1].k[2], a.S, NoOpts) IN
              IF ~Alive(b.S) THEN b ELSE CallFunction(W, Name(x), a.v, b.v, [i \in 1..Len(x.k[2][1].k[2]) |-> Name(x.k[2][1].k[2][i])], b.S)
    [] x.t = "SelectExpression" ->
         LET r == Eval(W, E, x.k[1][1], S)
             vs == x.k[2]
             hit == {i \in 1..Len(vs) : Matches(W, r.v, vs[i].k[1][1])}
             i == IF hit # {} THEN CHOOSE j \in hit : \A m \in hit : j <= m
                  ELSE CHOOSE j \in 1..Len(vs) : vs[j].v = <<1>>
         IN IF ~Alive(r.S) THEN r
            ELSE EvalPattern(W, E, vs[i].k[2][1], r.S)

(***************************************************************************)
(* A call: format the pattern pat (of the entry with generation own) with  *)
(* the given arguments.                                                    *)
(***************************************************************************)
Format(W, own, pat, args) ==
  LET r == EvalPattern(W, [args |-> args, miss |-> TRUE, act |-> {}, own |-> own, lone |-> 0], pat, S0)
  IN IF Alive(r.S) THEN [text |-> r.v.s, errs |-> r.S.errs, calls |-> r.S.calls]
     ELSE [text |-> T("{???}"), errs |-> Append(r.S.errs, [c |-> r.S.dead, m |-> <<>>]), calls |-> r.S.calls]
=============================================================================
