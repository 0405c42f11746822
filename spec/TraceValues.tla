---------------------------- MODULE TraceValues ----------------------------
(* How traces write values, arguments, functions, calls and errors.         *)
EXTENDS FluentBundle, FluentLocale, Json, IOUtils

Locales == TLCEval(JsonDeserialize(IOEnv.LOCALES))

RECURSIVE Assoc(_)
Assoc(ps) == IF ps = <<>> THEN NoOpts ELSE (Head(ps)[1] :> Head(ps)[2]) @@ Assoc(Tail(ps))

(* Values from the trace: options come as pairs. *)
Val(v) == IF v.k \in {"d", "t"} /\ v.f THEN [v EXCEPT !.o = Assoc(v.o)] ELSE v
Fun(f) == IF f.do = "const" THEN [f EXCEPT !.v = Val(f.v)] ELSE f

Builtins == TLCEval((T("NUMBER") :> [do |-> "NUMBER"]) @@ (T("DATETIME") :> [do |-> "DATETIME"]))
FunsOf(b) == LET own == Assoc(b.funs) IN [x \in DOMAIN own |-> Fun(own[x])] @@ Builtins
ArgsOf(a) == LET f == Assoc(a) IN [x \in DOMAIN f |-> Val(f[x])]
LocaleOf(tags) == LocaleFor(Locales, tags)
(* Arguments as a function passes them on. *)
Native(v) == IF v.k = "d" /\ ~v.f THEN NumV(v.n, NoOpts) ELSE Val(v)
PassedOn(a) == LET f == Assoc(a) IN [x \in DOMAIN f |-> Native(f[x])]
(* What a function saw of a value. *)
Plainly(v) == CASE v.k = "d" -> [k |-> "d", n |-> Norm(v.n)] [] v.k = "t" -> [k |-> "t", iso |-> v.iso] [] OTHER -> [k |-> v.k, s |-> v.s]
NoneType == [k |-> "o", s |-> T("NoneType")]
Bool(b) == [k |-> "d", n |-> [neg |-> FALSE, d |-> <<IF b THEN 1 ELSE 0>>, x |-> 0]]
NumberDefaults == TLCEval(
  (T("style") :> StrV(T("decimal"))) @@ (T("type") :> StrV(T("cardinal"))) @@ (T("currencyDisplay") :> StrV(T("symbol"))) @@
  (T("useGrouping") :> Bool(TRUE)) @@ [x \in NumberOptions |-> NoneType])
DateDefaults == TLCEval([x \in DateOptions |-> NoneType])
FullOptions(o, defaults) == [x \in DOMAIN defaults |-> IF Has(o, x) THEN Plainly(o[x]) ELSE defaults[x]]
Seen(v) == IF v.k = "d" /\ v.f THEN [k |-> "D", n |-> Norm(v.n), o |-> FullOptions(v.o, NumberDefaults)]
           ELSE IF v.k = "t" /\ v.f THEN [k |-> "T", iso |-> v.iso, o |-> FullOptions(v.o, DateDefaults)]
           ELSE Plainly(v)
SeenCall(c) == [f |-> c.f, names |-> c.names, args |-> [i \in 1..Len(c.args) |-> Seen(c.args[i])], kw |-> [x \in DOMAIN c.kw |-> Seen(c.kw[x])]]
TracedCall(c) == SeenCall([f |-> c.f, args |-> [i \in 1..Len(c.args) |-> Val(c.args[i])], kw |-> ArgsOf(c.kw), names |-> [i \in 1..Len(c.kw) |-> c.kw[i][1]]])

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
FluentErrors == {"FluentReferenceError", "FluentCyclicReferenceError", "FluentFormatError"}
SameError(want, seen) ==
  /\ want.c = "?" \/ want.c = seen.c
  /\ IF want.c \in FluentErrors THEN want.m = seen.m ELSE Prefix(want.m, seen.m)
SameErrors(want, seen) == Len(want) = Len(seen) /\ \A i \in 1..Len(want) : SameError(want[i], seen[i])

=============================================================================
