------------------------------ MODULE ToolsMC ------------------------------
(***************************************************************************)
(* A file is typed token by token; then up to three tools run, each on     *)
(* what the one before printed.                                            *)
(*   Settled:  formatting what was formatted changes nothing               *)
(*   ViaJson:  parsing and serializing is formatting                       *)
(*   Same:     formatting keeps the resource but for junk                  *)
(*   Colored:  without the codes, highlighting is the text                 *)
(* The runs are printed with the outcomes demanded, and replayed.          *)
(***************************************************************************)
EXTENDS FluentTools, Json, IOUtils

Depth == CHOOSE k \in 1..8 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..5000 : ToString(k) = IOEnv.EVERY
Alphabet == {T("a = b"), NL, <<CR, LF>>, <<CR>>, T("# c"), T("-t = { $v ->"), T(" *[o] p"), T(" }"), T("  "), T("{ 1 }"), T("{"), <<BOM>>}
Plain == [on |-> <<>>, off |-> <<>>]
Code(c) == [on |-> <<27>> \o c, off |-> <<27, 0>>]
Styles == [c \in {ClassOf(t) : t \in {"Comment", "Identifier", "TextElement", "NumberLiteral", "StringLiteral", "VariableReference", "Junk"}} \cup {KEYCLASS, RESTCLASS} |->
             IF c = RESTCLASS THEN Plain ELSE Code(<<1>>)]

VARIABLES file, typed, hist
vars == <<file, typed, hist>>
Text == [k |-> "text", t |-> <<>>]
Init == file = Text /\ typed = 0 /\ hist = <<>>
Type == hist = <<>> /\ typed < Depth /\ typed' = typed + 1 /\ UNCHANGED hist /\ \E tok \in Alphabet : file' = [file EXCEPT !.t = @ \o tok]
Tool == /\ Len(hist) < 3 /\ UNCHANGED typed
        /\ \E op \in {"fmt", "parse", "text"} :
             LET r == Run(op, file, Styles) IN
             /\ r.ok
             /\ file' = Printed(r, IF r.k = "ast" THEN <<>> ELSE r.t)
             /\ hist' = Append(hist, [op |-> op, in |-> IF hist = <<>> THEN file.t ELSE <<>>, t |-> r.t, body |-> r.body, end |-> r.end])
        /\ file.k = "ast" => hist'[Len(hist')].op = "text"     \* the layout of JSON is not specified
Hash == FoldLeft(LAMBDA a, c : (a * 31 + c) % 10007, Len(hist'[2].op), hist'[1].in)
Next == (Type \/ Tool) /\ ((Every > 0 /\ Len(hist') = 2 /\ hist' # hist /\ Hash % Every = 0) => PrintT("OUT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<file, hist>>

Out(op, c) == Run(op, c, Styles)
Ready == hist = <<>>
Writables == \A i \in 1..Len(Body(file.t)) : Writable(Body(file.t)[i])
Settled == Ready /\ Writables => LET once == Out("fmt", file) IN Out("fmt", [k |-> "text", t |-> once.t]) = once
ViaJson == Ready => Out("text", Printed(Out("parse", file), <<>>)) = Out("fmt", file)
Same == Ready /\ Writables => Clean(Body(Out("fmt", file).t)) = Clean(Body(file.t))
RECURSIVE Uncolored(_)
Uncolored(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 27 THEN Uncolored(SubSeq(s, 3, Len(s))) ELSE <<s[1]>> \o Uncolored(Tail(s))
Colored == Ready => Uncolored(Out("color", file).t) = Prepared(file.t)
=============================================================================
