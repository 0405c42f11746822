---------------------------- MODULE LiteralTrace ----------------------------
(***************************************************************************)
(* Validates what StringLiteral.parse and NumberLiteral.parse give (C13).  *)
(* A record: kind "s" with src and out (texts); or "n" with src, the value *)
(* as a decimal number (n: exactly), the bounds lo and hi between which    *)
(* decimal numbers are nearest to that binary one, integer (whether it was *)
(* an int), and prec.                                                      *)
(***************************************************************************)
EXTENDS FluentLiterals, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tc, upto, phase
vars == <<tc, upto, phase>>
Op == Cases[tc].ops[upto + 1]

(* Comparing the magnitudes of decimal numbers: -1, 0, 1. *)
RECURSIVE CompareDigits(_, _)
CompareDigits(a, b) == IF a = <<>> /\ b = <<>> THEN 0
  ELSE LET x == IF a = <<>> THEN 0 ELSE Head(a) y == IF b = <<>> THEN 0 ELSE Head(b) IN
       IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CompareDigits(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b))
Compare(m, n) ==
  LET a == Norm(m) b == Norm(n) IN
  IF IsZero(a) \/ IsZero(b) THEN (IF IsZero(a) /\ IsZero(b) THEN 0 ELSE IF IsZero(a) THEN -1 ELSE 1)
  ELSE LET p == Len(a.d) + a.x q == Len(b.d) + b.x IN IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE CompareDigits(a.d, b.d)

Why ==
  CASE Op.raised # "" -> "raised " \o Op.raised
    [] Op.kind = "s" -> IF Op.out # Decode(Op.src) THEN "value of the string" ELSE ""
    [] Op.kind = "n" ->
         LET m == ParseNumber(Op.src) IN
         IF Op.prec # Precision(Op.src) THEN "precision"
         ELSE IF ~IsZero(m) /\ Op.n.neg # m.neg THEN "sign"
         ELSE IF SameNumber(m, Op.n) THEN ""
         ELSE IF Op.exact THEN "value of the number"
         ELSE IF Compare(Op.lo, m) = 1 \/ Compare(m, Op.hi) = 1 THEN "the number isn't the nearest" ELSE ""

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run"
Step == /\ phase = "run" /\ upto < Len(Cases[tc].ops) /\ UNCHANGED tc
        /\ LET w == Why IN IF w = "" THEN upto' = upto + 1 /\ UNCHANGED phase
           ELSE /\ PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> w, want |-> IF Op.kind = "s" THEN Decode(Op.src) ELSE <<>>]))
                /\ phase' = "bad" /\ UNCHANGED upto
Finish == phase = "run" /\ upto = Len(Cases[tc].ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
