--------------------------- MODULE FluentLiterals ---------------------------
(***************************************************************************)
(* What literals mean (C13): the text a string literal denotes and the     *)
(* decimal number a number literal denotes.                                *)
(***************************************************************************)
EXTENDS FluentText

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

RECURSIVE HexNum(_, _)
HexNum(s, acc) == IF s = <<>> THEN acc ELSE HexNum(Tail(s), acc * 16 + HexVal(Head(s)))

AllHex(s) == \A i \in 1..Len(s) : IsHex(s[i])

(* The character a code denotes: no surrogates, nothing beyond Unicode. *)
Scalar(n) == IF n > 1114111 \/ (n >= 55296 /\ n <= 57343) THEN 65533 ELSE n

(* Length of the escape sequence at i, 0 if there is none. *)
EscapeAt(s, i) ==
  IF s[i] # BSLASH \/ i = Len(s) THEN 0
  ELSE IF s[i + 1] \in {BSLASH, QUOTE} THEN 2
  ELSE IF s[i + 1] = 117 /\ i + 5 <= Len(s) /\ AllHex(SubSeq(s, i + 2, i + 5)) THEN 6
  ELSE IF s[i + 1] = 85 /\ i + 7 <= Len(s) /\ AllHex(SubSeq(s, i + 2, i + 7)) THEN 8
  ELSE 0

RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET n == EscapeAt(s, i) IN
       IF n = 0 THEN <<s[i]>> \o DecodeFrom(s, i + 1)
       ELSE IF n = 2 THEN <<s[i + 1]>> \o DecodeFrom(s, i + 2)
       ELSE <<Scalar(HexNum(SubSeq(s, i + 2, i + n - 1), 0))>> \o DecodeFrom(s, i + n)
Decode(s) == IF \A i \in 1..Len(s) : s[i] # BSLASH THEN s ELSE DecodeFrom(s, 1)

(***************************************************************************)
(* Decimal numbers: (-1)^neg * (the digits d) * 10^x.                      *)
(***************************************************************************)
RECURSIVE StripLead(_)
StripLead(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d

IsZero(n) == \A i \in 1..Len(n.d) : n.d[i] = 0

RECURSIVE StripTrail(_, _)
StripTrail(d, x) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1), x + 1) ELSE <<d, x>>

(* Normal form: no leading zeros, no trailing zeros, zero has exponent 0. *)
Norm(n) == IF IsZero(n) THEN [n EXCEPT !.d = <<0>>, !.x = 0]
           ELSE LET r == StripTrail(StripLead(n.d), n.x) IN [n EXCEPT !.d = r[1], !.x = r[2]]

SameNumber(a, b) == LET p == Norm(a) q == Norm(b) IN
                    p.d = q.d /\ p.x = q.x /\ (p.neg = q.neg \/ IsZero(p))

DotAt(s) == IF \E i \in 1..Len(s) : s[i] = DOT THEN CHOOSE i \in 1..Len(s) : s[i] = DOT ELSE 0
Digits(s) == [i \in 1..Len(s) |-> s[i] - 48]

(* Number of digits behind the point. *)
Precision(s) == IF DotAt(s) = 0 THEN 0 ELSE Len(s) - DotAt(s)

ParseNumber(s) ==
  LET neg == s[1] = DASH
      u == IF neg THEN Tail(s) ELSE s
      p == DotAt(u)
      m == [neg |-> neg, d |-> StripLead(Digits(IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1) \o SubSeq(u, p + 1, Len(u)))), x |-> -Precision(s)]
  IN m

(* The value the runtime gives the literal: an integer without a point     *)
(* (there is no negative zero among those), otherwise a binary float,      *)
(* which doesn't know trailing zeros.                                      *)
LiteralNumber(s) ==
  LET m == ParseNumber(s) IN
  IF DotAt(s) = 0 THEN [m EXCEPT !.neg = @ /\ ~IsZero(m)]
  ELSE LET f == Norm(m) IN IF f.x > 0 THEN [f EXCEPT !.d = f.d \o Rep(0, f.x), !.x = 0] ELSE f
=============================================================================
