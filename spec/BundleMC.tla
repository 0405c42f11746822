------------------------------ MODULE BundleMC ------------------------------
(***************************************************************************)
(* Histories of one bundle: additions of the resources below, with and     *)
(* without overriding, and uses of the messages.  Next to the registry of  *)
(* FluentBundle (what ids denote) the state has a design of it as the      *)
(* runtime has it: the entries, and those compiled at their first use,     *)
(* dropped when an addition replaces them.                                 *)
(*   Coherent: the two always agree on every id (C15), so that neither     *)
(*     uses nor their order play a role (C23)                              *)
(*   FirstWins: stated independently of the registry, over the   *)
(*     history: an id denotes the last of: its first definition, and the   *)
(*     definitions in overriding additions after that     *)
(* Histories of full length are printed with the outcomes demanded, and    *)
(* replayed with the real code.                                            *)
(***************************************************************************)
EXTENDS FluentBundle, FluentNodes, FiniteSets, Json, IOUtils

SizeLimit == CHOOSE k \in 1..9 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..200 : ToString(k) = IOEnv.EVERY
Lit(s) == <<Pat(1, <<Text(s)>>)>>
(* Values are identified by their texts. *)
Resources == TLCEval(<<
  <<MessageNode("a", Lit("a1"), <<>>), TermNode("a", Lit("t1"), <<>>)>>,
  <<MessageNode("a", <<Pat(1, <<Text("a2 "), Plc(MsgRef("b"))>>)>>, <<>>), Nd("Comment", 0, T("c"), <<>>), MessageNode("a", Lit("dup"), <<>>), MessageNode("b", <<Pat(1, <<Text("b2 "), Plc(TermRef("a", <<>>))>>)>>, <<AttrNode("x", Pat(5, <<Text("x2")>>))>>)>>,
  <<MessageNode("b", <<Pat(1, <<Text("b3 "), Plc(MsgAttr("b", "x"))>>)>>, <<>>), TermNode("a", <<Pat(1, <<Text("t3")>>)>>, <<AttrNode("x", Pat(5, <<Text("y")>>))>>), TermNode("a", Lit("t4"), <<>>)>> >>)
Ids == {T("a"), T("b")}

VARIABLES reg, msgs, terms, compiled, hist
vars == <<reg, msgs, terms, compiled, hist>>

NodeAt(e) == Resources[e.node[1]][e.node[2]]
Entries(f) == [x \in DOMAIN f |-> [gen |-> f[x].gen, node |-> NodeAt(f[x])]]
World(B) == [iso |-> FALSE, funs |-> NoOpts, loc |-> English, dates |-> <<>>, msgs |-> Entries(B.msgs), terms |-> Entries(B.terms)]
FormatId(B, id) == LET e == B.msgs[id] IN Format(World(B), e.gen, ValuePattern(NodeAt(e))[1], NoOpts)

(* The design: what a lookup of an entry compiles and finds.  Keys of the  *)
(* cache: the id with its namespace.                                       *)
Designed == [msgs |-> [x \in DOMAIN msgs |-> IF Has(compiled, <<"m", x>>) THEN compiled[<<"m", x>>] ELSE msgs[x]],
             terms |-> [x \in DOMAIN terms |-> IF Has(compiled, <<"t", x>>) THEN compiled[<<"t", x>>] ELSE terms[x]]]

RECURSIVE DesignAdd(_, _, _, _, _, _, _, _)
DesignAdd(M, Tm, C, body, i, over, k, r) ==
  IF i > Len(body) THEN <<M, Tm, C>>
  ELSE LET x == body[i] e == [gen |-> 1000 * k + i, node |-> <<r, i>>] IN
       IF x.t = "Message" /\ (over \/ ~Has(M, Name(x))) THEN DesignAdd((Name(x) :> e) @@ M, Tm, Without(C, <<"m", Name(x)>>), body, i + 1, over, k, r)
       ELSE IF x.t = "Term" /\ (over \/ ~Has(Tm, Name(x))) THEN DesignAdd(M, (Name(x) :> e) @@ Tm, Without(C, <<"t", Name(x)>>), body, i + 1, over, k, r)
       ELSE DesignAdd(M, Tm, C, body, i + 1, over, k, r)

Init == reg = EmptyBundle /\ msgs = NoOpts /\ terms = NoOpts /\ compiled = NoOpts /\ hist = <<>>
Add(r, over) ==
  LET d == DesignAdd(msgs, terms, compiled, Resources[r], 1, over, Len(hist) + 1, r) IN
  /\ reg' = AddResource(reg, Resources[r], over, Len(hist) + 1, r)
  /\ msgs' = d[1] /\ terms' = d[2] /\ compiled' = d[3]
  /\ hist' = Append(hist, [op |-> "add", r |-> r, over |-> over, id |-> <<>>, text |-> <<>>, errs |-> <<>>])
(* A use compiles the message and what it refers to. *)
Use(id) ==
  IF ~Has(reg.msgs, id)
  THEN hist' = Append(hist, [op |-> "missing", r |-> 0, over |-> FALSE, id |-> id, text |-> <<>>, errs |-> <<>>]) /\ UNCHANGED <<reg, msgs, terms, compiled>>
  ELSE LET w == FormatId(Designed, id) IN
       /\ hist' = Append(hist, [op |-> "use", r |-> 0, over |-> FALSE, id |-> id, text |-> w.text, errs |-> w.errs])
       /\ compiled' = [x \in DOMAIN compiled \cup {<<"m", y>> : y \in DOMAIN msgs} \cup {<<"t", y>> : y \in DOMAIN terms} |->
                        IF Has(compiled, x) THEN compiled[x] ELSE IF x[1] = "m" THEN msgs[x[2]] ELSE terms[x[2]]]
       /\ UNCHANGED <<reg, msgs, terms>>
Step == Len(hist) < SizeLimit /\ ((\E r \in 1..Len(Resources), over \in BOOLEAN : Add(r, over)) \/ \E id \in Ids : Use(id))
HashOf(h) == FoldLeft(LAMBDA a, x : (a * 31 + 7 * x.r + (IF x.over THEN 3 ELSE 1) + Len(x.id) * 5 + (IF x.id = T("b") THEN 2 ELSE 0)) % 100003, 1, h)
Next == Step /\ ((Len(hist') = SizeLimit /\ Every > 0 /\ HashOf(hist') % Every = 0) => PrintT("OUT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

Coherent == /\ Designed = reg
            /\ \A id \in DOMAIN reg.msgs : FormatId(Designed, id) = FormatId(reg, id)
(* All definitions of a message id: <<when, where, overriding>>, in order. *)
Definitions(id) == LET adds == {k \in 1..Len(hist) : hist[k].op = "add"} IN
  {<<k, i>> \in adds \X (1..4) : i <= Len(Resources[hist[k].r]) /\ Resources[hist[k].r][i].t = "Message" /\ Name(Resources[hist[k].r][i]) = id}
Before(d, e) == d[1] < e[1] \/ (d[1] = e[1] /\ d[2] < e[2])
Valid(id) == {d \in Definitions(id) : hist[d[1]].over \/ ~\E e \in Definitions(id) : Before(e, d)}
FirstWins == \A id \in Ids :
  /\ Has(reg.msgs, id) <=> Definitions(id) # {}
  /\ Has(reg.msgs, id) => LET last == CHOOSE d \in Valid(id) : \A e \in Valid(id) : e = d \/ Before(e, d)
                          IN reg.msgs[id].node = <<hist[last[1]].r, last[2]>>
=============================================================================
