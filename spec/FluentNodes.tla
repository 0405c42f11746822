---------------------------- MODULE FluentNodes ----------------------------
(* Shorthands for AST nodes in the encoding of FluentSyntax (no spans).     *)
EXTENDS FluentText

Nd(t, a, v, k) == [t |-> t, a |-> a, b |-> 0, v |-> v, k |-> k]
Idn(s) == Nd("Identifier", 0, T(s), <<>>)
MsgRef(s) == Nd("MessageReference", 0, <<>>, <<<<Idn(s)>>, <<>>>>)
MsgAttr(s, x) == Nd("MessageReference", 0, <<>>, <<<<Idn(s)>>, <<Idn(x)>>>>)
VarRef(s) == Nd("VariableReference", 0, <<>>, <<<<Idn(s)>>>>)
StrLit(s) == Nd("StringLiteral", 0, T(s), <<>>)
NumLit(s) == Nd("NumberLiteral", 0, T(s), <<>>)
Text(s) == Nd("TextElement", 0, T(s), <<>>)
Plc(x) == Nd("Placeable", 0, <<>>, <<<<x>>>>)
NamedArg(s, x) == Nd("NamedArgument", 0, <<>>, <<<<Idn(s)>>, <<x>>>>)
CallArgs(ps, ns) == Nd("CallArguments", 0, <<>>, <<ps, ns>>)
TermRef(s, as) == Nd("TermReference", 0, <<>>, <<<<Idn(s)>>, <<>>, as>>)
TermAttr(s, x, as) == Nd("TermReference", 0, <<>>, <<<<Idn(s)>>, <<Idn(x)>>, as>>)
Fn(s, ps, ns) == Nd("FunctionReference", 0, <<>>, <<<<Idn(s)>>, <<CallArgs(ps, ns)>>>>)
Pat(a, els) == Nd("Pattern", a, <<>>, <<els>>)
Var(key, d, pat) == Nd("Variant", 0, <<IF d THEN 1 ELSE 0>>, <<<<key>>, <<pat>>>>)
Sel(x, vs) == Nd("SelectExpression", 0, <<>>, <<<<x>>, vs>>)
MessageNode(name, val, attrs) == Nd("Message", 0, <<>>, <<<<Idn(name)>>, val, attrs, <<>>>>)
TermNode(name, val, attrs) == Nd("Term", 0, <<>>, <<<<Idn(name)>>, val, attrs, <<>>>>)
AttrNode(name, pat) == Nd("Attribute", 0, <<>>, <<<<Idn(name)>>, <<pat>>>>)

(* A locale good enough for worlds without numbers. *)
English == [dec |-> <<46>>, grp |-> <<44>>, cur |-> <<>>, plurals |-> <<>>, ordinals |-> <<>>, decimal |-> <<>>]
=============================================================================
