---------------------------- MODULE BundleTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of bundles.  A record has the resources    *)
(* (res: bodies), the bundles (each with locale, isolation, functions),    *)
(* argument sets, dates, and the operations in order with what they gave:  *)
(*   add  b, r, over                  the resource r is added              *)
(*   has  b, id           -> out                                           *)
(*   get  b, id           -> out (ok/missing/...), value, attrs            *)
(*   fmt  h, attr, args   -> text, errs, calls, raised; h: a former get    *)
(*        args: a set's number, 0 for none, -1 for those in argv.  given:    *)
(*        what functions that format themselves gave; their operations     *)
(*        come before this one                                             *)
(*   tags b               -> out, the bundle's list of locales             *)
(*   end                  -> intact (resources and arguments unchanged)    *)
(* The state has the registries and the entries got so far; each step      *)
(* consumes one operation, and its outcome has to be the specified one.    *)
(***************************************************************************)
EXTENDS TraceValues

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.VIEW

VARIABLES tc, upto, reg, got, phase
vars == <<tc, upto, reg, got, phase>>
Case == Cases[tc]

(* The state keeps where entries are (resource, index), not the entries. *)
NodeOf(e) == Case.res[e.node[1]][e.node[2]]
Entries(f) == [x \in DOMAIN f |-> [gen |-> f[x].gen, node |-> NodeOf(f[x])]]
World(i) == LET b == Case.bundles[i] IN
  [iso |-> b.iso, msgs |-> Entries(reg[i].msgs), terms |-> Entries(reg[i].terms), funs |-> FunsOf(b), given |-> <<>>, loc |-> Locales[LocaleOf(b.locs)], dates |-> Case.dates[LocaleOf(b.locs)]]

Bad(why, want) == PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> why, want |-> want])) /\ phase' = "bad"
Good == upto' = upto + 1 /\ phase' = "run"

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run" /\ got = <<>>
        /\ reg = [i \in 1..Len(Cases[tc].bundles) |-> EmptyBundle]

Op == Case.ops[upto + 1]
More == phase = "run" /\ upto < Len(Case.ops)

Add ==
  /\ More /\ Op.op = "add"
  /\ reg' = [reg EXCEPT ![Op.b] = AddResource(@, Case.res[Op.r], Op.over, upto + 1, Op.r)]
  /\ Good /\ UNCHANGED <<tc, got>>

HasOp ==
  /\ More /\ Op.op = "has"
  /\ IF Op.out = (IF Has(reg[Op.b].msgs, Op.id) THEN "yes" ELSE "no") THEN Good ELSE Bad("has_message", <<>>) /\ UNCHANGED upto
  /\ UNCHANGED <<tc, reg, got>>

Get ==
  /\ More /\ Op.op = "get"
  /\ UNCHANGED <<tc, reg>>
  /\ LET known == Has(reg[Op.b].msgs, Op.id) IN
     IF ~known THEN IF Op.out = "missing" THEN Good /\ got' = Append(got, <<>>) ELSE Bad("get_message of an unknown id", <<>>) /\ UNCHANGED <<upto, got>>
     ELSE LET e == reg[Op.b].msgs[Op.id]
              node == NodeOf(e)
              names == {Name(node.k[3][i]) : i \in 1..Len(node.k[3])}
          IN IF Op.out # "ok" THEN Bad("get_message", <<>>) /\ UNCHANGED <<upto, got>>
             ELSE IF Op.value # (ValuePattern(node) # <<>>) \/ {Op.attrs[i] : i \in 1..Len(Op.attrs)} # names \/ Op.name # Op.id
             THEN Bad("the message got has other parts", <<>>) /\ UNCHANGED <<upto, got>>
             ELSE Good /\ got' = Append(got, <<[b |-> Op.b, e |-> e]>>)

TagsOp ==
  /\ More /\ Op.op = "tags"
  /\ IF Op.out = Case.bundles[Op.b].locs THEN Good ELSE Bad("locales", <<>>) /\ UNCHANGED upto
  /\ UNCHANGED <<tc, reg, got>>

Expected ==
  LET h == got[Op.h][1]
      pat == IF Op.attr = <<>> THEN ValuePattern(NodeOf(h.e)) ELSE AttributePattern(NodeOf(h.e), Op.attr)
      w == [World(h.b) EXCEPT !.given = Op.given]
      args == IF Op.args = 0 THEN NoOpts ELSE IF Op.args = -1 THEN PassedOn(Op.argv) ELSE ArgsOf(Case.args[Op.args])
  IN Format(w, h.e.gen, pat[1], args)

NoErrorsIn(r) == r.errs = <<>>
Fmt ==
  /\ More /\ Op.op = "fmt"
  /\ UNCHANGED <<tc, reg, got>>
  /\ IF Op.raised # "" THEN Bad("format_pattern raised", <<>>) /\ UNCHANGED upto
     ELSE IF Op.kind # "str" THEN Bad("the result is not a string", <<>>) /\ UNCHANGED upto
     ELSE LET w == Expected IN
     IF Op.text # w.text THEN Bad("text", w) /\ UNCHANGED upto
     ELSE IF Prop \notin {"C15", "C18", "C20"} /\ ~SameErrors(w.errs, Op.errs) THEN Bad("errors", w) /\ UNCHANGED upto
     ELSE IF Prop \in {"C24", "C23", "C16", "C35"} /\ [i \in 1..Len(Op.calls) |-> TracedCall(Op.calls[i])] # [i \in 1..Len(w.calls) |-> SeenCall(w.calls[i])]
     THEN Bad("function calls", [i \in 1..Len(w.calls) |-> w.calls[i].f]) /\ UNCHANGED upto
     ELSE Good

End ==
  /\ More /\ Op.op = "end"
  /\ UNCHANGED <<tc, reg, got>>
  /\ IF Op.intact THEN Good ELSE Bad("resources or arguments changed", <<>>) /\ UNCHANGED upto

Finish ==
  /\ phase = "run" /\ upto = Len(Case.ops)
  /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done"
  /\ UNCHANGED <<tc, upto, reg, got>>

Next == Add \/ HasOp \/ TagsOp \/ Get \/ Fmt \/ End \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
