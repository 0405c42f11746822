---------------------------- MODULE FluentText ----------------------------
(***************************************************************************)
(* Text as the Fluent specification sees it: a sequence of Unicode code    *)
(* points.  Positions ("cursors") are 1-based TLA+ indices; the 0-based    *)
(* half-open offsets of the public API are cursor - 1.                     *)
(*                                                                         *)
(* A CRLF pair is one line end.  Reading at a CR that is followed by an LF *)
(* yields LF, and stepping over it moves two code points; a CR on its own  *)
(* is an ordinary text character.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

EOF == -1
LF  == 10
CR  == 13
SP  == 32
QUOTE == 34     \* "
HASH == 35      \* #
DOLLAR == 36    \* $
LPAREN == 40
RPAREN == 41
STAR == 42
COMMA == 44
DASH == 45
DOT == 46
SLASH == 47
COLON == 58
EQUALS == 61
GT == 62
LBRACK == 91
BSLASH == 92
RBRACK == 93
LBRACE == 123
RBRACE == 125

Raw(s, p) == IF p > Len(s) THEN EOF ELSE s[p]

IsCRLF(s, p) == p < Len(s) /\ s[p] = CR /\ s[p + 1] = LF

(* The character at cursor p, with CRLF read as LF. *)
Ch(s, p) == IF p > Len(s) THEN EOF
            ELSE IF s[p] = CR /\ IsCRLF(s, p) THEN LF
            ELSE s[p]

(* The cursor after the character at p. *)
Nx(s, p) == IF p < Len(s) /\ s[p] = CR /\ s[p + 1] = LF THEN p + 2 ELSE p + 1

Slice(s, p, q) == SubSeq(s, p, q - 1)      \* [p, q)

IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsUpper(c)  == c >= 65 /\ c <= 90
IsDigit(c)  == c >= 48 /\ c <= 57
IsHex(c)    == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IdChars     == (48..57) \cup (65..90) \cup (97..122) \cup {95, 45}
IsIdChar(c) == IsLetter(c) \/ IsDigit(c) \/ c = 95 \/ c = DASH

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

Rep(c, n) == [i \in 1..n |-> c]

(***************************************************************************)
(* Readable literals: T("abc") is the code point sequence of an ASCII      *)
(* string.                                                                 *)
(***************************************************************************)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([ch \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |->
             31 + (CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = ch)])
T(str) == TLCEval([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]])
NL == <<LF>>

(* Every text node value, source slice etc. is compared as a sequence.     *)
FlatText(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

RECURSIVE JoinText(_, _)
JoinText(ss, sep) == IF ss = <<>> THEN <<>>
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE Head(ss) \o sep \o JoinText(Tail(ss), sep)

RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecDigits(n \div 10), 48 + (n % 10))
=============================================================================
