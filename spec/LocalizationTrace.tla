------------------------- MODULE LocalizationTrace -------------------------
(***************************************************************************)
(* Validates recorded histories of localizations.  A record has resources  *)
(* (res), and localizations (locs: locales, offer per locale: sets of      *)
(* resource numbers and whether the loader raises after them; funs, iso),  *)
(* args, dates, and operations fmt: loc, id, args -> text, raised ("" or   *)
(* "loader" or a class), asked (locales the loader was asked for), made    *)
(* (locale lists and isolation of the bundles created), both up to the     *)
(* first of the operations inner, which functions did while formatting,    *)
(* with the results given.                                                 *)
(***************************************************************************)
EXTENDS TraceValues, FluentLocalization

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.VIEW
VARIABLES tc, upto, sts, phase
vars == <<tc, upto, sts, phase>>
Case == Cases[tc]
Op == Case.ops[upto + 1]

NodeOf(e) == Case.res[e.node[1]][e.node[2]]
OfferOf(L) == [l \in 1..Len(L.offer) |-> [fails |-> L.offer[l].fails, sets |-> [s \in 1..Len(L.offer[l].sets) |->
                [i \in 1..Len(L.offer[l].sets[s]) |-> <<L.offer[l].sets[s][i], Case.res[L.offer[l].sets[s][i]]>>]]]]
Resolved(f) == [x \in DOMAIN f |-> [gen |-> f[x].gen, node |-> NodeOf(f[x])]]
World(L, b, given) == LET tag == LocaleOf(SubSeq(L.locales, b.loc, Len(L.locales))) IN
  [iso |-> L.iso, msgs |-> Resolved(b.reg.msgs), terms |-> Resolved(b.reg.terms), funs |-> FunsOf(L), given |-> given, loc |-> Locales[tag], dates |-> Case.dates[tag]]

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run" /\ sts = [i \in 1..Len(Cases[tc].locs) |-> Fresh]

MadeOf(L, before, after) == [i \in 1..(Len(after.loaded) - Len(before.loaded)) |->
  LET b == after.loaded[Len(before.loaded) + i] IN [locs |-> SubSeq(L.locales, b.loc, Len(L.locales)), iso |-> L.iso]]
ArgsFor(op) == IF op.args = 0 THEN NoOpts ELSE IF op.args = -1 THEN PassedOn(op.argv) ELSE ArgsOf(Case.args[op.args])
Why(op, st, r) ==
  LET L == Case.locs[op.loc] IN
  IF r.raised /\ st.broken THEN ""                                    \* beyond the failure: not specified
  ELSE IF op.asked # [i \in 1..(r.st.asked - st.asked) |-> L.locales[st.asked + i]] THEN "locales asked for"
  ELSE IF Prop = "C26" /\ op.made # MadeOf(L, st, r.st) THEN "bundles created"
  ELSE IF op.made # <<>> /\ op.made # MadeOf(L, st, r.st) THEN "a bundle's locales"
  ELSE IF r.raised THEN IF op.raised = "loader" THEN "" ELSE "the loader's exception"
  ELSE IF op.raised # "" THEN "raised " \o op.raised
  ELSE IF r.at = 0 THEN IF op.text = op.id THEN "" ELSE "not the id"
  ELSE LET b == r.st.loaded[r.at]
           e == b.reg.msgs[op.id]
           w == Format(World(L, b, op.given), e.gen, ValuePattern(NodeOf(e))[1], ArgsFor(op))
       IN IF w.text = op.text THEN "" ELSE "text"

(* A request: it searches, then functions make further requests while its  *)
(* bundle formats.                                                         *)
RECURSIVE Request(_, _), Requests(_, _)
Request(op, ss) ==
  LET r == Search(OfferOf(Case.locs[op.loc]), Case.res, ss[op.loc], 1, op.id)
      w == Why(op, ss[op.loc], r)
  IN IF w # "" THEN [why |-> w, ss |-> ss, r |-> r] ELSE LET q == Requests(op.inner, [ss EXCEPT ![op.loc] = r.st]) IN [why |-> q.why, ss |-> q.ss, r |-> r]
Requests(ops, ss) ==
  IF ops = <<>> THEN [why |-> "", ss |-> ss]
  ELSE LET r == Request(Head(ops), ss) IN IF r.why # "" THEN [why |-> r.why, ss |-> ss] ELSE Requests(Tail(ops), r.ss)

Step ==
  /\ phase = "run" /\ upto < Len(Case.ops) /\ UNCHANGED tc
  /\ LET q == Request(Op, sts)
     IN IF q.why = "" THEN upto' = upto + 1 /\ sts' = q.ss /\ UNCHANGED phase
        ELSE /\ PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> q.why, want |-> [at |-> q.r.at, asked |-> q.r.st.asked, loaded |-> Len(q.r.st.loaded)]]))
             /\ phase' = "bad" /\ UNCHANGED <<upto, sts>>
Finish == phase = "run" /\ upto = Len(Case.ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto, sts>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
