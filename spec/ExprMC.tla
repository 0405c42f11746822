------------------------------- MODULE ExprMC -------------------------------
(***************************************************************************)
(* Every small select expression (KIND=select; C18) and function call      *)
(* (KIND=call; C24): all selectors or arguments of the lists below, with   *)
(* all short lists of variants or arguments.  The invariants state the     *)
(* properties over the result alone; each case is printed with the result  *)
(* demanded and replayed with the real code.                               *)
(***************************************************************************)
EXTENDS FluentResolver, FluentNodes, FiniteSets, Json, IOUtils

Kind == IOEnv.KIND
Every == CHOOSE k \in 0..200 : ToString(k) = IOEnv.EVERY
Longest == CHOOSE k \in 0..5 : ToString(k) = IOEnv.SIZE
Locales == TLCEval(JsonDeserialize(IOEnv.LOCALES))
Tag == IOEnv.TAG
Loc == TLCEval(Locales[Tag])

N(neg, d, x) == [neg |-> neg, d |-> d, x |-> x]
Ordinal == T("type") :> StrV(T("ordinal"))
(* Values of the variable x; the harness has the same list. *)
Values == <<
  StrV(T("one")), StrV(T("1")), StrV(T("other")), StrV(<<>>), NoneV(T("x")), [k |-> "o", s |-> T("list")],
  NumV(N(FALSE, <<1>>, 0), NoOpts), NumV(N(FALSE, <<0>>, 0), NoOpts), NumV(N(FALSE, <<2>>, 0), NoOpts), NumV(N(TRUE, <<1>>, 0), NoOpts),
  NumV(N(FALSE, <<1, 5>>, -1), NoOpts), NumV(N(FALSE, <<1>>, 0), Ordinal), NumV(N(FALSE, <<2>>, 0), Ordinal), NumV(N(FALSE, <<3>>, 0), Ordinal),
  NumV(N(FALSE, <<5>>, 0), NoOpts), NumV(N(FALSE, <<1, 1>>, 0), Ordinal), NumV(N(FALSE, <<1, 0>>, -1), NoOpts)>>
Selectors == <<VarRef("x"), VarRef("y"), StrLit("one"), NumLit("1"), NumLit("1.0"), TermAttr("t", "b", <<>>), Fn("NUMBER", <<VarRef("x")>>, <<NamedArg("type", StrLit("ordinal"))>>),
  Fn("NUMBER", <<VarRef("x")>>, <<NamedArg("minimumFractionDigits", NumLit("1"))>>), Fn("ARG", <<VarRef("x")>>, <<>>), Fn("NOSUCH", <<>>, <<>>), Fn("FAIL", <<>>, <<>>), TermAttr("t", "c", <<>>)>>
Keys == <<Idn("one"), Idn("other"), Idn("two"), Idn("few"), NumLit("1"), NumLit("1.0"), NumLit("0"), NumLit("-1"), NumLit("2"), NumLit("01"), NumLit("1.50")>>

(* Arguments of calls; each leaves a trace of its evaluation. *)
ArgExprs == <<VarRef("x"), VarRef("y"), StrLit("s"), NumLit("1.50"), MsgRef("m"), Fn("KW", <<>>, <<NamedArg("x", StrLit("k"))>>), Fn("FAIL", <<>>, <<>>), TermRef("t", <<>>), MsgRef("q"), Plc(VarRef("x"))>>
CallNames == <<"ARG", "KW", "CONST", "FAIL", "NUMBER", "NOSUCH", "DATETIME">>
NamedLists == <<<<>>, <<NamedArg("x", StrLit("n"))>>, <<NamedArg("y", NumLit("1")), NamedArg("x", NumLit("2.0"))>>, <<NamedArg("minimumFractionDigits", NumLit("2"))>>,
  <<NamedArg("style", StrLit("percent")), NamedArg("useGrouping", NumLit("0"))>>, <<NamedArg("style", StrLit("odd"))>>, <<NamedArg("number", NumLit("7"))>>>>

Functions == (T("ARG") :> [do |-> "arg", i |-> 1]) @@ (T("KW") :> [do |-> "kw", name |-> T("x")]) @@ (T("CONST") :> [do |-> "const", v |-> StrV(T("const"))])
  @@ (T("FAIL") :> [do |-> "raise", cls |-> "Custom", msg |-> T("boom")]) @@ (T("NUMBER") :> [do |-> "NUMBER"]) @@ (T("DATETIME") :> [do |-> "DATETIME"])
Term == TermNode("t", <<Pat(60, <<Text("tt")>>)>>, <<AttrNode("b", Pat(61, <<Text("one")>>)), AttrNode("c", Pat(62, <<Text("two"), Plc(VarRef("x"))>>))>>)
Message == MessageNode("m", <<Pat(70, <<Text("mm "), Plc(VarRef("x"))>>)>>, <<>>)
World == [iso |-> FALSE, funs |-> Functions, loc |-> Loc, dates |-> <<>>, msgs |-> T("m") :> [gen |-> 2, node |-> Message], terms |-> T("t") :> [gen |-> 3, node |-> Term]]

VARIABLES val, head, list, pick, phase
vars == <<val, head, list, pick, phase>>

Body(i) == Pat(10 + i, <<Text("v" \o ToString(i))>>)
SelectOf(l, p) == Sel(Selectors[head], [i \in 1..Len(l) |-> Var(Keys[l[i]], i = p, Body(i))])
Expression == IF Kind = "select" THEN SelectOf(list, pick) ELSE Fn(CallNames[head], [i \in 1..Len(list) |-> ArgExprs[list[i]]], NamedLists[pick])
Own(x) == MessageNode("o", <<Pat(1, <<Text("a "), Plc(x), Text(" z")>>)>>, <<>>)
Args == T("x") :> Values[val]
RunWith(x) == Format(World, 1, ValuePattern(Own(x))[1], Args)
Run == RunWith(Expression)

Wide(n) == UNION {[1..k -> 1..n] : k \in 0..Longest}
Init ==
  /\ val \in (IF Kind = "select" THEN 1..Len(Values) ELSE {1, 5, 6, 7, 11})
  /\ head \in (IF Kind = "select" THEN 1..Len(Selectors) ELSE 1..Len(CallNames))
  /\ list \in (IF Kind = "select" THEN {l \in Wide(Len(Keys)) : l # <<>>} ELSE Wide(Len(ArgExprs)))
  /\ pick \in (IF Kind = "select" THEN 1..Len(list) ELSE 1..Len(NamedLists))
  /\ phase = "new"
  /\ (Kind = "select" /\ head \notin {1, 7, 8, 9} => val = 1)

Chosen(r) == CHOOSE i \in 1..9 : T("a ") \o T("v" \o ToString(i)) \o T(" z") = r.text
Drop(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
(* C18, over results alone. *)
SelectHolds ==
  LET r == Run c == Chosen(r) IN
  /\ c <= Len(list)
  /\ \A i \in 1..Len(list) : i # c /\ i # pick =>                    \* variants not taken play no role
       LET q == RunWith(SelectOf(Drop(list, i), IF pick > i THEN pick - 1 ELSE pick)) IN Chosen(q) = (IF c > i THEN c - 1 ELSE c) /\ q.errs = r.errs
  /\ c # pick =>                                                     \* one that is taken matches wherever the default is, and alone
       /\ \A p \in 1..Len(list) : Chosen(RunWith(SelectOf(list, p))) = c
       /\ Values[val].k \in {"s", "n", "o"} /\ head \in {1, 9} => Keys[list[c]].t = "Identifier"
       /\ ~(Values[val].k \in {"n", "o"} /\ head \in {1, 7, 8, 9})
  /\ head \in {2, 10, 11} => c = pick /\ Len(r.errs) = 1
(* C24 *)
CallHolds ==
  LET r == Run IN
  /\ SubSeq(r.text, 1, 2) = T("a ") /\ SubSeq(r.text, Len(r.text) - 1, Len(r.text)) = T(" z")   \* contained
  /\ Has(Functions, T(CallNames[head])) \/ SubSeq(r.text, 3, Len(r.text) - 2) = T(CallNames[head] \o "()")
  /\ Cardinality({i \in 1..Len(r.calls) : r.calls[i].f = T(CallNames[head])}) <= 1 + Cardinality({i \in 1..Len(list) : list[i] \in {6, 7}})
  /\ \A i \in 1..Len(r.calls) : i = Len(r.calls) /\ Has(Functions, T(CallNames[head])) /\ CallNames[head] \notin {"NUMBER", "DATETIME"}
       => r.calls[i].f = T(CallNames[head]) /\ Len(r.calls[i].args) = Len(list)
  /\ LET last == IF r.errs = <<>> THEN "" ELSE r.errs[Len(r.errs)].c IN
     /\ CallNames[head] = "FAIL" => last = "Custom"
     /\ CallNames[head] = "NOSUCH" => last = "FluentReferenceError"

HashValue == FoldLeft(LAMBDA a, i : (a * 31 + i) % 100003, 7 + val * 17 + head * 331 + pick * 5, list)
Case == [nodes |-> <<Own(Expression), Message, Term>>, val |-> val, text |-> Run.text, errs |-> Run.errs, calls |-> [i \in 1..Len(Run.calls) |-> Run.calls[i].f]]
Next == /\ phase = "new" /\ UNCHANGED <<val, head, list, pick>>
        /\ (Every > 0 /\ HashValue % Every = 0 => PrintT("OUT " \o ToJson(Case)))
        /\ phase' = IF (Kind = "select" /\ SelectHolds) \/ (Kind = "call" /\ CallHolds) THEN "done" ELSE "bad"
Spec == Init /\ [][Next]_vars
Sound == phase # "bad"
=============================================================================
