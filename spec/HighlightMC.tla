---------------------------- MODULE HighlightMC ----------------------------
(***************************************************************************)
(* Highlighting of every text of at most DEPTH tokens of an alphabet.      *)
(*   Whole:       the tokens are the text, one after the other             *)
(*   Classified:  the classified tokens are exactly the leaves of the tree *)
(*   Rest:        nothing but punctuation and blank is punctuation         *)
(* The tokens are printed and compared with the real ones.                 *)
(***************************************************************************)
EXTENDS FluentHighlight, FiniteSets, Json, IOUtils

Depth == CHOOSE k \in 1..8 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..500 : ToString(k) = IOEnv.EVERY
Alphabets == [expr |-> {T("a = "), T("{ "), T("-b"), T("$c"), T("1"), <<QUOTE>>, T(" -> "), T("*[d] e"), T("[1] x"), T("F("), T(", "), T(": "), T(")"), T(" }"), NL},
              entries |-> {T("# x"), NL, T("a = b"), T("-t = u"), T(" .c = d"), T(" e"), T("{1}"), T("##"), <<CR, LF>>}]
Alphabet == Alphabets[IOEnv.ALPHA]
Starts == IF IOEnv.ALPHA = "expr" THEN {<<>>, T("a = { $b -> "), T("a = { F("), T("# x") \o NL \o T("-t = { $b.c -> ")} ELSE {<<>>}
Closings == IF IOEnv.ALPHA = "expr" THEN {T(" }"), T(") }"), NL \o T("*[d] e") \o NL \o T("}")} ELSE {}

VARIABLES txt, used
vars == <<txt, used>>
Init == used = 0 /\ txt \in Starts
Hash == FoldLeft(LAMBDA a, c : (a * 31 + c) % 10007, 0, txt')
Next == /\ used <= Depth
        /\ \/ used < Depth /\ used' = used + 1 /\ \E tok \in Alphabet : txt' = txt \o tok
           \/ used' = Depth + 1 /\ \E tok \in Closings : txt' = txt \o tok
        /\ (Every > 0 /\ Hash % Every = 0) => PrintT("OUT " \o ToJson([src |-> txt', tokens |-> Tokens(txt')]))
Spec == Init /\ [][Next]_vars
TextOnly == txt

Toks == Tokens(txt)
Whole == /\ FlatText([i \in 1..Len(Toks) |-> Toks[i].s]) = txt
         /\ \A i \in 1..Len(Toks) : Toks[i].s # <<>> /\ Toks[i].a = IF i = 1 THEN 0 ELSE Toks[i - 1].a + Len(Toks[i - 1].s)
RECURSIVE Leaves(_)
Leaves(n) == IF ClassOf(n.t) # "" THEN {<<n.a, n.b, ClassOf(n.t)>>}
             ELSE UNION {IF n.t = "Variant" /\ i = 1 THEN {<<n.k[1][1].a, n.k[1][1].b, KEYCLASS>>} ELSE UNION {Leaves(n.k[i][j]) : j \in 1..Len(n.k[i])} : i \in 1..Len(n.k)}
Classified == {<<Toks[i].a, Toks[i].a + Len(Toks[i].s), Toks[i].c>> : i \in {i \in 1..Len(Toks) : Toks[i].c # RESTCLASS}}
              = UNION {Leaves(Body(txt)[i]) : i \in 1..Len(Body(txt))}
SyntaxChars == {SP, LF, CR} \cup {CodeOf[c] : c \in {"{", "}", "[", "]", "(", ")", "*", "-", ".", ":", ",", "=", ">"}}
Rest == \A i \in 1..Len(Toks) : Toks[i].c = RESTCLASS => /\ \A j \in 1..Len(Toks[i].s) : Toks[i].s[j] \in SyntaxChars
                                                         /\ i < Len(Toks) => Toks[i + 1].c # RESTCLASS
=============================================================================
