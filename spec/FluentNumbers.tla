--------------------------- MODULE FluentNumbers ---------------------------
(***************************************************************************)
(* Number formatting (C29) and plural categories (C18).                    *)
(*                                                                         *)
(* A number is a record [neg, d, x], see FluentLiterals.  A locale L is    *)
(* data taken from the CLDR (through Babel): the symbols dec and grp, for  *)
(* each style a pattern [pre, suf: for positive and negative numbers, g:   *)
(* sizes of the last and the other groups, ip, fp: minimum and maximum     *)
(* number of integer and fraction digits], the symbol and number of        *)
(* fraction digits of each currency, and the rules for plural categories.  *)
(***************************************************************************)
EXTENDS FluentLiterals

RECURSIVE Incr(_)
Incr(d) == IF d = <<>> THEN <<1>>
           ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
           ELSE Incr(SubSeq(d, 1, Len(d) - 1)) \o <<0>>

(* Drop the last k digits, rounding half to even. *)
DropRound(d, k) ==
  IF k > Len(d) THEN <<>>
  ELSE LET keep == SubSeq(d, 1, Len(d) - k)
           rest == SubSeq(d, Len(d) - k + 1, Len(d))
           tie == rest[1] = 5 /\ \A i \in 2..k : rest[i] = 0
           up == IF tie THEN keep # <<>> /\ keep[Len(keep)] % 2 = 1 ELSE rest[1] >= 5
       IN IF up THEN Incr(keep) ELSE keep

PadLeft(d, n) == Rep(0, MaxOf(0, n - Len(d))) \o d

(* <<integer digits, f fraction digits>> of the number rounded to f digits. *)
Quantize(n, f) ==
  LET d == IF n.x + f >= 0 THEN n.d \o Rep(0, n.x + f) ELSE DropRound(n.d, -(n.x + f))
      p == PadLeft(StripLead(IF d = <<>> THEN <<0>> ELSE d), f + 1)
  IN <<SubSeq(p, 1, Len(p) - f), SubSeq(p, Len(p) - f + 1, Len(p))>>

RECURSIVE TrimTo(_, _)
TrimTo(d, lo) == IF Len(d) > lo /\ Len(d) > 0 /\ d[Len(d)] = 0 THEN TrimTo(SubSeq(d, 1, Len(d) - 1), lo) ELSE d

DigitText(d) == [i \in 1..Len(d) |-> 48 + d[i]]

(* Integer digits in groups: the last one of g1 digits, the others of g2. *)
RECURSIVE Grouped(_, _, _, _)
Grouped(d, g1, g2, symbol) ==
  IF Len(d) <= g1 THEN DigitText(d)
  ELSE Grouped(SubSeq(d, 1, Len(d) - g1), g2, g2, symbol) \o symbol \o DigitText(SubSeq(d, Len(d) - g1 + 1, Len(d)))

(* Digits of a number in normal form rounded to hi significant digits, at  *)
(* least lo of them shown: <<integer digits, fraction digits>>.            *)
Significant(n, lo, hi) ==
  LET m == Norm(n)
      lead == Len(m.d) + m.x                  \* digits before the point (if positive)
      r == IF Len(m.d) > hi THEN Norm([m EXCEPT !.d = DropRound(m.d, Len(m.d) - hi), !.x = m.x + Len(m.d) - hi]) ELSE m
      top == Len(r.d) + r.x
      q == Quantize(r, MaxOf(0, -r.x))
      shown == IF top > 0 THEN top + Len(q[2]) ELSE Len(r.d)
  IN <<q[1], q[2] \o Rep(0, IF top > 0 /\ lo <= top THEN 0 ELSE MaxOf(0, lo - shown))>>

RECURSIVE ReplaceChar(_, _, _)
ReplaceChar(s, c, by) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = c THEN by ELSE <<Head(s)>>) \o ReplaceChar(Tail(s), c, by)
CURRENCYSIGN == 164
PERCENT == 37

Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]

CurrencyOf(L, code) ==
  IF \E i \in 1..Len(L.cur) : L.cur[i].code = code THEN L.cur[CHOOSE i \in 1..Len(L.cur) : L.cur[i].code = code]
  ELSE [code |-> code, sym |-> code, digits |-> 2]

(***************************************************************************)
(* O are the effective options: style, cur, disp, grouping, and the five   *)
(* limits minInt, minFrac, maxFrac, minSig, maxSig, -1 if not given.       *)
(***************************************************************************)
FormatNumber(L, n0, O) ==
  LET P == IF O.style = T("percent") THEN L.percent ELSE IF O.style = T("currency") THEN L.currency ELSE L.decimal
      pct == \E i \in 1..2 : \E s \in {P.pre[i], P.suf[i]} : \E j \in 1..Len(s) : s[j] = PERCENT
      n == IF pct THEN [n0 EXCEPT !.x = @ + 2] ELSE n0
      money == O.style = T("currency")
      cur == CurrencyOf(L, O.cur)
      g == IF O.grouping THEN P.g ELSE <<1000, 1000>>
      lo == IF O.minFrac >= 0 THEN O.minFrac ELSE P.fp[1]
      hi == IF O.maxFrac >= 0 THEN O.maxFrac ELSE MaxOf(P.fp[2], lo)
      fl == IF money THEN cur.digits ELSE lo
      fh == IF money THEN cur.digits ELSE hi
      il == IF O.minInt >= 0 THEN O.minInt ELSE P.ip[1]
      sig == O.minSig >= 0 \/ O.maxSig >= 0
      sl == IF O.minSig >= 0 THEN O.minSig ELSE 1
      sh == IF O.maxSig >= 0 THEN O.maxSig ELSE sl
      q == IF sig THEN Significant(n, sl, sh) ELSE Quantize(n, fh)
      ints == IF sig THEN q[1] ELSE PadLeft(q[1], il)
      frac == IF sig THEN q[2] ELSE LET t == TrimTo(q[2], fl) IN t \o Rep(0, MaxOf(0, fl - Len(t)))
      body == Grouped(ints, g[1], g[2], L.grp) \o (IF frac = <<>> THEN <<>> ELSE L.dec \o DigitText(frac))
      side == IF n.neg THEN 2 ELSE 1
      mark == IF O.disp = T("code") THEN Upper(O.cur) ELSE cur.sym
      put(s) == IF money THEN ReplaceChar(s, CURRENCYSIGN, mark) ELSE s
  IN put(P.pre[side]) \o body \o put(P.suf[side])

(***************************************************************************)
(* Plural categories: the first rule that holds, otherwise "other".  A     *)
(* rule is a tree of or, and, not over relations [x: operand, mod, neg: , r:    *)
(* ranges].  Operands: n the absolute value, i its integer digits, f and v *)
(* the visible fraction digits and their number, t and w these without     *)
(* trailing zeros.                                                         *)
(***************************************************************************)
IntPart(n) == IF n.x >= 0 THEN n.d \o Rep(0, n.x)
              ELSE IF Len(n.d) <= -n.x THEN <<0>> ELSE SubSeq(n.d, 1, Len(n.d) + n.x)
(* Babel takes the fraction digits from the digits of the number, where    *)
(* zeros directly behind the point don't occur if nothing is before it.    *)
FracPart(n) == IF n.x >= 0 THEN <<>> ELSE IF Len(n.d) <= -n.x THEN n.d ELSE SubSeq(n.d, Len(n.d) + n.x + 1, Len(n.d))
AllZero(d) == \A i \in 1..Len(d) : d[i] = 0

RECURSIVE ModOf(_, _, _)
ModOf(d, m, acc) == IF d = <<>> THEN acc ELSE ModOf(Tail(d), m, (acc * 10 + Head(d)) % m)
BIG == 999999999
SmallInt(d) == LET s == StripLead(d) IN IF Len(s) > 9 THEN BIG ELSE ModOf(s, 1000000000, 0)
IntMod(d, m) == IF m = 0 THEN SmallInt(d) ELSE ModOf(d, m, 0)

Operand(n, x, m) ==      \* -1 if it isn't an integer
  LET fr == FracPart(n)
      ft == TrimTo(fr, 0)
      num(k) == IF m = 0 THEN k ELSE k % m
  IN CASE x = "n" -> IF AllZero(fr) THEN IntMod(IntPart(n), m) ELSE -1
       [] x = "i" -> IntMod(IntPart(n), m)
       [] x = "v" -> num(Len(fr))
       [] x = "w" -> num(Len(ft))
       [] x = "f" -> IF fr = <<>> THEN 0 ELSE IntMod(fr, m)
       [] x = "t" -> IF ft = <<>> THEN 0 ELSE IntMod(ft, m)
       [] OTHER -> 0      \* c, e: no compact notation

RECURSIVE Holds(_, _)
Holds(n, r) ==
  CASE r.op = "or" -> \E i \in 1..Len(r.a) : Holds(n, r.a[i])
    [] r.op = "and" -> \A i \in 1..Len(r.a) : Holds(n, r.a[i])
    [] r.op = "not" -> ~Holds(n, r.a[1])
    [] r.op = "in" -> LET k == Operand(n, r.x, r.mod) IN \E i \in 1..Len(r.r) : r.r[i][1] <= k /\ k <= r.r[i][2]

Category(rules, n) ==
  IF \E i \in 1..Len(rules) : Holds(n, rules[i].rule)
  THEN rules[CHOOSE i \in 1..Len(rules) : Holds(n, rules[i].rule) /\ \A j \in 1..(i - 1) : ~Holds(n, rules[j].rule)].tag
  ELSE T("other")
=============================================================================
