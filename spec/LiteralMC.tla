----------------------------- MODULE LiteralMC -----------------------------
(***************************************************************************)
(* Escape decoding as a machine that reads a literal's source from left to *)
(* right (C13), for all short sources over the pieces below.  The machine's *)
(* result is Decode's; each escape is taken once: what an escape gives is  *)
(* never read again.  Sources are printed with their values and replayed.  *)
(***************************************************************************)
EXTENDS FluentLiterals, Json, IOUtils
SizeLimit == CHOOSE k \in 1..9 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..200 : ToString(k) = IOEnv.EVERY

Pieces == <<<<BSLASH, BSLASH>>, <<BSLASH, QUOTE>>, <<BSLASH>> \o T("u0041"), <<BSLASH>> \o T("u005C"), <<BSLASH>> \o T("U00005C"), <<BSLASH>> \o T("U01F600"), <<BSLASH>> \o T("uD800"),
  <<BSLASH>> \o T("U110000"), T("u0041"), T("U01F602"), T("a"), <<BSLASH>> \o T("u00e9"), T("41"), <<BSLASH>> \o T("U10FFFF"), <<123>>, <<BSLASH>> \o T("U00DFFF"), <<BSLASH>> \o T("uffff")>>

VARIABLES src, at, out, parts
vars == <<src, at, out, parts>>
Lists == UNION {[1..n -> 1..Len(Pieces)] : n \in 0..SizeLimit}
Init == \E l \in Lists : parts = l /\ src = FlatText([i \in 1..Len(l) |-> Pieces[l[i]]]) /\ at = 1 /\ out = <<>>
Next == /\ at <= Len(src)
        /\ LET n == EscapeAt(src, at) IN
           IF n = 0 THEN at' = at + 1 /\ out' = Append(out, src[at])
           ELSE at' = at + n /\ out' = out \o Decode(SubSeq(src, at, at + n - 1))
        /\ UNCHANGED <<src, parts>>
        /\ (at' > Len(src) /\ Every > 0 /\ FoldLeft(LAMBDA a, x : (a * 31 + x) % 1009, 1, parts) % Every = 0) => PrintT("OUT " \o ToJson([src |-> src, out |-> out']))
Spec == Init /\ [][Next]_vars
Ends == at > Len(src) => out = Decode(src)
(* Decoding is a homomorphism on the pieces: escapes don't see each other. *)
Piecewise == at = 1 => Decode(src) = FlatText([i \in 1..Len(parts) |-> Decode(Pieces[parts[i]])])
Scalars == \A i \in 1..Len(out) : out[i] <= 1114111 /\ ~(out[i] \in 55296..57343)
Each == at > 1 /\ at <= Len(src) => Decode(src) = out \o Decode(SubSeq(src, at, Len(src)))
=============================================================================
