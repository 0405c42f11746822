------------------------------ MODULE NumbersMC ------------------------------
(***************************************************************************)
(* Number formatting (C29) on all small numbers and options: the text is   *)
(* read back and compared with the number by integer arithmetic.           *)
(*   Nearest:  the number shown is nearest to the value among those with   *)
(*             that many digits, ties going to the even one                *)
(*   DigitCounts:  the minimum and maximum numbers of digits are kept, zeros   *)
(*             beyond the minimum are not shown                            *)
(*   Groups:   without grouping the text is the same, less separators,     *)
(*             which stand in the places the locale's groups have          *)
(*   Signs:    a number and its negative differ in the affixes only        *)
(* The formatted numbers are printed and compared with the real ones.      *)
(***************************************************************************)
EXTENDS FluentNumbers, FiniteSets, Json, IOUtils

Every == CHOOSE k \in 0..500 : ToString(k) = IOEnv.EVERY
Longest == CHOOSE k \in 1..5 : ToString(k) = IOEnv.SIZE
Locales == TLCEval(JsonDeserialize(IOEnv.LOCALES))
Tags == {"en-US", "hi", "de"}

Lists == UNION {[1..n -> {0, 1, 4, 5, 9}] : n \in 1..Longest}
Plain == [style |-> T("decimal"), cur |-> <<>>, disp |-> T("symbol"), grouping |-> TRUE, minInt |-> -1, minFrac |-> -1, maxFrac |-> -1, minSig |-> -1, maxSig |-> -1]
Fractions == {o \in {[Plain EXCEPT !.minFrac = a, !.maxFrac = b, !.minInt = c] : a \in -1..2, b \in -1..2, c \in {-1, 3}} : o.maxFrac < 0 \/ o.minFrac <= o.maxFrac}
Significants == {o \in {[Plain EXCEPT !.minSig = a, !.maxSig = b] : a \in {-1, 1, 3}, b \in {-1, 1, 2, 4}} : o.maxSig < 0 \/ o.minSig <= o.maxSig}
Options == Fractions \cup Significants \cup {[Plain EXCEPT !.grouping = FALSE], [Plain EXCEPT !.style = T("percent")], [Plain EXCEPT !.style = T("percent"), !.minFrac = 1],
  [Plain EXCEPT !.style = T("currency"), !.cur = T("EUR")], [Plain EXCEPT !.style = T("currency"), !.cur = T("JPY"), !.disp = T("code")]}

VARIABLES n, opts, tag, shown
vars == <<n, opts, tag, shown>>
Init == /\ n \in [neg : {FALSE}, d : Lists, x : {-4, -3, -2, -1, 0, 3}] /\ opts \in Options /\ tag \in Tags
        /\ shown = <<>> /\ (n.x = 3 => Len(n.d) <= 3)
L == Locales[tag]
Negative == [n EXCEPT !.neg = TRUE]
Zero == \A i \in 1..Len(n.d) : n.d[i] = 0
RECURSIVE Pow(_)
Pow(k) == IF k <= 0 THEN 1 ELSE 10 * Pow(k - 1)
RECURSIVE ToInt(_, _)
ToInt(d, acc) == IF d = <<>> THEN acc ELSE ToInt(Tail(d), acc * 10 + Head(d))
IsSig == opts.minSig >= 0 \/ opts.maxSig >= 0
(* Known to come out differently in the real code (see known_findings.json). *)
Carry == LET m == Norm(n)
             hi == IF opts.maxSig >= 0 THEN opts.maxSig ELSE opts.minSig
         IN Zero \/ (Len(m.d) > hi /\ Len(m.d) + m.x <= 0 /\ Len(DropRound(m.d, Len(m.d) - hi)) > hi)
Hash == FoldLeft(LAMBDA a, c : (a * 31 + c) % 10007, Len(opts.style) + n.x + 4, n.d) + opts.minFrac * 3 + opts.maxFrac * 5 + opts.minInt + opts.minSig * 7 + opts.maxSig * 11
Next == /\ shown = <<>> /\ shown' = FormatNumber(L, n, opts) /\ UNCHANGED <<n, opts, tag>>
        /\ (Every > 0 /\ Hash % Every = 0 /\ ~(IsSig /\ Carry)) =>
             PrintT("OUT " \o ToJson([n |-> n, opts |-> opts, tag |-> tag, text |-> shown', minus |-> FormatNumber(L, Negative, opts)]))
Spec == Init /\ [][Next]_vars

(* The number in the text: digits before and after the decimal symbol. *)
P == IF opts.style = T("percent") THEN L.percent ELSE IF opts.style = T("currency") THEN L.currency ELSE L.decimal
NumberChars == {48 + i : i \in 0..9} \cup {L.dec[1], L.grp[1]}
Core == LET in == {i \in 1..Len(shown) : IsDigit(shown[i])} IN SubSeq(shown, CHOOSE i \in in : \A j \in in : i <= j, CHOOSE i \in in : \A j \in in : j <= i)
Point == LET at == {i \in 1..Len(Core) : Core[i] = L.dec[1]} IN IF at = {} THEN Len(Core) + 1 ELSE CHOOSE i \in at : TRUE
Ints == SelectSeq(SubSeq(Core, 1, Point - 1), IsDigit)
Frac == SubSeq(Core, Point + 1, Len(Core))
Values(s) == [i \in 1..Len(s) |-> s[i] - 48]
Money == opts.style = T("currency")
Digit(k) == IF k = <<>> THEN 0 ELSE k[Len(k)]
Lo == IF opts.minFrac >= 0 THEN opts.minFrac ELSE P.fp[1]
Hi == IF Money THEN (IF opts.cur = T("JPY") THEN 0 ELSE 2) ELSE IF opts.maxFrac >= 0 THEN opts.maxFrac ELSE MaxOf(P.fp[2], Lo)
Cents == IF Money THEN Hi ELSE Lo
X == IF opts.style = T("percent") THEN n.x + 2 ELSE n.x

(* Both scaled to integers by 10^k. *)
Scale == MaxOf(-X, Len(Frac))
Exact == ToInt(n.d, 0) * Pow(X + Scale)
Seen == ToInt(Values(Ints \o Frac), 0) * Pow(Scale - Len(Frac))
Abs(a) == IF a < 0 THEN -a ELSE a
Unit == Pow(Scale - Hi)
Nearest == shown # <<>> /\ ~IsSig => IF Scale <= Hi THEN Exact = Seen
  ELSE /\ 2 * Abs(Exact - Seen) <= Unit
       /\ 2 * Abs(Exact - Seen) = Unit => (Seen \div Unit) % 2 = 0
DigitCounts == shown # <<>> /\ ~IsSig =>
  /\ Len(Frac) >= Cents /\ Len(Frac) <= Hi
  /\ Len(Frac) > Cents => Digit(Frac) # 48
  /\ Len(Ints) >= MaxOf(1, opts.minInt)
  /\ Len(Ints) > MaxOf(1, MaxOf(opts.minInt, P.ip[1])) => Ints[1] # 48
(* Significant digits: the leading zeros and, of an integer, trailing ones don't count. *)
Leading == LET all == Values(Ints \o Frac) nz == {i \in 1..Len(all) : all[i] # 0} IN IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : i <= j
SigHi == IF opts.maxSig >= 0 THEN opts.maxSig ELSE opts.minSig
SigLo == IF opts.minSig >= 0 THEN opts.minSig ELSE 1
Significance == shown # <<>> /\ IsSig /\ ~Zero =>
  /\ LET m == Norm(n)
         top == Len(m.d) + m.x
         unit == top - SigHi                                        \* a unit of the last significant digit is 10^unit
         k == MaxOf(Scale, -unit)
     IN Len(m.d) <= 8 /\ k <= 8 =>
        /\ 2 * Abs(ToInt(m.d, 0) * Pow(m.x + k) - ToInt(Values(Ints \o Frac), 0) * Pow(k - Len(Frac))) <= Pow(unit + k)
  /\ Len(Ints) + Len(Frac) - Leading + 1 >= SigLo
Separators == {i \in 1..(Point - 1) : ~IsDigit(Core[i])}
Groups == shown # <<>> =>
  /\ SelectSeq(shown, LAMBDA c : c # L.grp[1]) = SelectSeq(FormatNumber(L, n, [opts EXCEPT !.grouping = FALSE]), LAMBDA c : c # L.grp[1])
  /\ \A i \in Separators : opts.grouping /\ LET right == Cardinality({j \in (i + 1)..(Point - 1) : IsDigit(Core[j])}) IN right >= P.g[1] /\ (right - P.g[1]) % P.g[2] = 0
  /\ opts.grouping => Cardinality(Separators) = IF Len(Ints) <= P.g[1] THEN 0 ELSE (Len(Ints) - P.g[1] + P.g[2] - 1) \div P.g[2]
Put(s) == IF Money THEN ReplaceChar(s, CURRENCYSIGN, IF opts.disp = T("code") THEN opts.cur ELSE CurrencyOf(L, opts.cur).sym) ELSE s
Signs == shown # <<>> => /\ shown = Put(P.pre[1]) \o Core \o Put(P.suf[1])
                         /\ FormatNumber(L, Negative, opts) = Put(P.pre[2]) \o Core \o Put(P.suf[2])
==============================================================================
