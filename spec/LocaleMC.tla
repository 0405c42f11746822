------------------------------ MODULE LocaleMC ------------------------------
(***************************************************************************)
(* Every list of up to SIZE tags (known, unknown, other spellings) grows;  *)
(* then a bundle searches it, and formats a message by what it found.      *)
(*   First:   the tag found is known, and no earlier one is                *)
(*   Ahead:   an unknown tag ahead of the list changes nothing (C33)       *)
(*   Behind:  what comes behind a known tag plays no role                  *)
(* Each list is printed with the texts demanded, and replayed.             *)
(***************************************************************************)
EXTENDS FluentLocale, FluentResolver, FluentNodes, Json, IOUtils

Size == CHOOSE k \in 0..5 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..200 : ToString(k) = IOEnv.EVERY
Locales == TLCEval(JsonDeserialize(IOEnv.LOCALES))
Tags == {"pl", "ar", "ga", "EN-in", "de_CH", "xx", "zz-ZZ"}

Ordinal == NamedArg("type", StrLit("ordinal"))
Keys == <<"zero", "one", "two", "few", "many", "other">>
By(sel, at) == Pat(at, <<Plc(Sel(sel, [i \in 1..6 |-> Var(Idn(Keys[i]), i = 6, Pat(at + i, <<Text(Keys[i])>>))]))>>)
Body == Pat(1, <<Text("<"), Plc(VarRef("x")), Text(" "), Plc(Fn("NUMBER", <<VarRef("x")>>, <<NamedArg("style", StrLit("percent"))>>)), Text("> "), Plc(MsgRef("c")), Text(" "), Plc(MsgRef("o"))>>)
Messages == <<MessageNode("m", <<Body>>, <<>>), MessageNode("c", <<By(VarRef("x"), 10)>>, <<>>), MessageNode("o", <<By(Fn("NUMBER", <<VarRef("x")>>, <<Ordinal>>), 30)>>, <<>>)>>
Numbers == << [neg |-> FALSE, d |-> <<0>>, x |-> 0], [neg |-> FALSE, d |-> <<2>>, x |-> 0], [neg |-> FALSE, d |-> <<2, 2>>, x |-> 0], [neg |-> FALSE, d |-> <<1, 2, 3, 4, 5, 6, 7, 5>>, x |-> -1] >>
World(tag) == [iso |-> FALSE, funs |-> T("NUMBER") :> [do |-> "NUMBER"], loc |-> Locales[tag], dates |-> <<>>, terms |-> NoOpts,
               msgs |-> (T("m") :> [gen |-> 1, node |-> Messages[1]]) @@ (T("c") :> [gen |-> 2, node |-> Messages[2]]) @@ (T("o") :> [gen |-> 3, node |-> Messages[3]])]
Texts(tag) == [i \in 1..Len(Numbers) |-> Format(World(tag), 1, Body, T("x") :> NumV(Numbers[i], NoOpts)).text]

VARIABLES tags, s, out
vars == <<tags, s, out>>
Init == tags = <<>> /\ s = Searching /\ out = <<>>
Extend == s = Searching /\ Len(tags) < Size /\ \E t \in Tags : tags' = Append(tags, t) /\ UNCHANGED <<s, out>>
Try == s.found = "" /\ s' = TryNext(Locales, tags, s) /\ UNCHANGED <<tags, out>>
Shown == [tags |-> tags, texts |-> Texts(s.found)]
Answer == s.found # "" /\ out = <<>> /\ out' = Shown.texts /\ UNCHANGED <<tags, s>>
          /\ ((Every > 0 /\ (IF Len(tags) < 3 THEN 0 ELSE Len(out'[1]) + Len(out'[4]) + s.tried) % Every = 0) => PrintT("OUT " \o ToJson(Shown)))
Next == Extend \/ Try \/ Answer
Spec == Init /\ [][Next]_vars

First == s.found # "" => IF s.found = Default THEN \A i \in 1..Len(tags) : tags[i] \notin KnownTags(Locales)
                         ELSE s.found = tags[s.tried] /\ s.found \in KnownTags(Locales) /\ \A i \in 1..(s.tried - 1) : tags[i] \notin KnownTags(Locales)
Ahead == s.found # "" => LocaleFor(Locales, <<"xx">> \o tags) = s.found
Behind == s.found \notin {"", Default} => \A t \in Tags : LocaleFor(Locales, Append(SubSeq(tags, 1, s.tried), t)) = s.found
Spelled == out # <<>> => Len(out) = Len(Numbers) /\ \A i \in 1..Len(out) : out[i] # <<>>
=============================================================================
