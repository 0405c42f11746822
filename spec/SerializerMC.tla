---------------------------- MODULE SerializerMC ----------------------------
(***************************************************************************)
(* Exhaustive check of the canonical form: for every text of at most DEPTH  *)
(* tokens, and its AST.                                                    *)
(***************************************************************************)
EXTENDS FluentSerializer, IOUtils
Depth == CHOOSE d \in 0..9 : ToString(d) = IOEnv.DEPTH
Alphabet ==
  {T("a ="), T(" "), NL, T("  "), T("t"), T("[u"), T("{1}"), T("{ $b ->"), T(" *[c]"), T("}"), T(" .d ="), T("# e"), T("## f"), <<CR>>, T("{"), T("{F(-g.h, i: 1)}")}
VARIABLES txt, used
Init == txt = <<>> /\ used = 0
Next == /\ used < Depth
        /\ \E tok \in Alphabet : txt' = txt \o tok
        /\ used' = used + 1
Spec == Init /\ [][Next]_<<txt, used>>
TextOnly == txt
RoundTrip ==
  LET b == Body(txt) IN
  (\A i \in 1..Len(b) : Writable(b[i])) =>
     LET s == SerializeBody(b, FALSE)
         b2 == Body(s)
     IN  Clean(b2) = Clean(b) /\ SerializeBody(b2, FALSE) = s /\ (\A i \in 1..Len(b2) : b2[i].t # "Junk")
JunkKept == (\A i \in 1..Len(Body(txt)) : Body(txt)[i].t = "Junk") => SerializeBody(Body(txt), TRUE) = FlatText([i \in 1..Len(Body(txt)) |-> Body(txt)[i].v])
=============================================================================
