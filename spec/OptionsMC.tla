----------------------------- MODULE OptionsMC -----------------------------
(***************************************************************************)
(* Wrapping values again and again with all small sets of options (C28).   *)
(*   Last:     each option is as given last, over the values' own          *)
(*   Refuses:  exactly the wrong options are refused, and then nothing is  *)
(*             made                                                        *)
(*   Frozen:   no step changes a value that exists                         *)
(*   Chained:  two wraps are one with the options of both                  *)
(* Histories are printed and replayed.                                     *)
(***************************************************************************)
EXTENDS FluentValues, FiniteSets, Json, IOUtils

Every == CHOOSE k \in 0..500 : ToString(k) = IOEnv.EVERY
Depth == CHOOSE k \in 1..3 : ToString(k) = IOEnv.SIZE

NoneO == [k |-> "o", s |-> T("NoneType")]
Two == [k |-> "d", n |-> [neg |-> FALSE, d |-> <<2>>, x |-> 0]]
Str(x) == StrV(T(x))
(* Options by name: what they may be given as; the others are absent. *)
Maps(pairs) == {[x \in {p[1] : p \in s} |-> (CHOOSE p \in s : p[1] = x)[2]] : s \in {t \in SUBSET pairs : \A p, q \in t : p[1] = q[1] => p = q}}
NumberPairs == {<<T("style"), Str("percent")>>, <<T("style"), Str("currency")>>, <<T("style"), Str("other")>>, <<T("currency"), Str("EUR")>>, <<T("currency"), NoneO>>,
                <<T("minimumFractionDigits"), Two>>, <<T("type"), Str("ordinal")>>, <<T("dateStyle"), Str("full")>>}
DatePairs == {<<T("dateStyle"), Str("full")>>, <<T("dateStyle"), Str("odd")>>, <<T("dateStyle"), NoneO>>, <<T("timeStyle"), Str("short")>>, <<T("timeZone"), Str("UTC")>>, <<T("style"), Str("percent")>>}
NumberKw == TLCEval({m \in Maps(NumberPairs) : Cardinality(DOMAIN m) <= 3})
DateKw == TLCEval({m \in Maps(DatePairs) : Cardinality(DOMAIN m) <= 3})

Native(py) == CASE py \in Numeric -> [v |-> [k |-> "d", f |-> FALSE, o |-> NoOpts], py |-> py, lit |-> "x"]
                [] py \in Temporal -> [v |-> [k |-> "t", f |-> FALSE, o |-> NoOpts], py |-> py, lit |-> "x"]
                [] OTHER -> [v |-> [k |-> "n", s |-> <<>>], py |-> py, lit |-> "x"]
Starts == {"int", "Decimal", "datetime", "date", "none", "str"}

VARIABLES heap, hist
vars == <<heap, hist>>
Init == \E py \in Starts : heap = <<Native(py)>> /\ hist = <<>>
Hows == {"number", "date", "native"}
KwOf(how) == CASE how = "number" -> NumberKw [] how = "date" -> DateKw [] OTHER -> {NoOpts}
Relevant(how) == heap[1].py \in Numeric => (how # "date" \/ (heap[1].py = "int" /\ hist = <<>>))
Sparse(how, kw) == (how = "date" /\ heap[1].py \notin Temporal) \/ (how = "number" /\ heap[1].py \notin Numeric) => Cardinality(DOMAIN kw) <= 1
RECURSIVE Pairs(_)
Pairs(f) == IF DOMAIN f = {} THEN <<>> ELSE LET x == CHOOSE x \in DOMAIN f : TRUE IN <<<<x, f[x]>>>> \o Pairs([y \in DOMAIN f \ {x} |-> f[y]])
Step == /\ Len(hist) < Depth
        /\ \E of \in 1..Len(heap), how \in Hows : \E kw \in KwOf(how) :
             /\ Relevant(how) /\ Sparse(how, kw)
             /\ LET r == Wrap(how, heap[of], kw) IN
                heap' = heap \o r /\ hist' = Append(hist, [of |-> of, how |-> how, kw |-> kw, refused |-> r = <<>>])
Hash == FoldLeft(LAMBDA a, h : (a * 31 + h.of * 7 + Len(h.how) + FoldLeft(LAMBDA b, p : b + p[1][1] * Len(p[1]) + (IF p[2].k = "s" THEN 3 * Len(p[2].s) ELSE 11), 0, Pairs(h.kw))) % 10007, Len(heap'[1].py), hist')
Outcome(h, hp) == [start |-> hp[1].py, steps |-> [i \in 1..Len(h) |-> [of |-> h[i].of, how |-> h[i].how, kw |-> Pairs(h[i].kw), refused |-> h[i].refused]],
                   opts |-> [i \in 1..Len(hp) |-> IF hp[i].v.k \in {"d", "t"} /\ hp[i].v.f THEN Pairs(hp[i].v.o) ELSE <<>>]]
Next == Step /\ ((Every > 0 /\ Len(hist') = Depth /\ Hash % Every = 0) => PrintT("OUT " \o ToJson(Outcome(hist', heap'))))
Spec == Init /\ [][Next]_vars

(* The value each successful step made. *)
MadeBy(i) == 1 + Cardinality({j \in 1..i : ~hist[j].refused})
Own(x) == IF x.v.k \in {"d", "t"} THEN x.v.o ELSE NoOpts
LastGiven == \A i \in 1..Len(hist) : ~hist[i].refused /\ heap[1].py \in Numeric \cup Temporal =>
  LET old == Own(heap[hist[i].of]) new == Own(heap[MadeBy(i)]) kw == hist[i].kw IN
  /\ DOMAIN new = DOMAIN old \cup DOMAIN kw
  /\ \A x \in DOMAIN new : new[x] = IF x \in DOMAIN kw THEN kw[x] ELSE old[x]
BadPair(py, p) == \/ p \in {<<T("style"), Str("other")>>, <<T("dateStyle"), Str("odd")>>}
                  \/ (py \in Numeric /\ p[1] = T("dateStyle"))
                  \/ (py \in Temporal /\ p[1] = T("style"))
                  \/ (py = "date" /\ p[1] = T("timeStyle"))
Money(o) == T("style") \in DOMAIN o /\ o[T("style")] = Str("currency") /\ (T("currency") \notin DOMAIN o \/ o[T("currency")] = NoneO)
Refuses == \A i \in 1..Len(hist) : hist[i].how # "native" /\ heap[1].py # "none" =>
  (hist[i].refused <=> \/ heap[1].py \notin (IF hist[i].how = "number" THEN Numeric ELSE Temporal)
                       \/ \E p \in {<<x, hist[i].kw[x]>> : x \in DOMAIN hist[i].kw} : BadPair(heap[1].py, p)
                       \/ heap[1].py \in Numeric /\ Money(hist[i].kw @@ Own(heap[hist[i].of])))
Frozen == [][SubSeq(heap', 1, Len(heap)) = heap]_vars
Chained == \A i, j \in 1..Len(hist) : hist[i].how = hist[j].how /\ hist[i].how # "native" /\ ~hist[i].refused /\ ~hist[j].refused /\ i < j /\ hist[j].of = MadeBy(i) /\ hist[i].of = 1 =>
  Wrap(hist[i].how, heap[1], hist[j].kw @@ hist[i].kw) = <<heap[MadeBy(j)]>>
=============================================================================
