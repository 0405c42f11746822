----------------------------- MODULE ValueTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of values (C28, C29, C30): a heap of       *)
(* values, which only grows, by operations                                 *)
(*   new   val                       a native value or FluentNone          *)
(*   wrap  how, of, kw -> raised, or a new value                           *)
(*   fmt   of, locale -> text, raised                                      *)
(* After each operation all holds all values as they are then: see (kind,  *)
(* number or date, all options), py, lit.                                  *)
(***************************************************************************)
EXTENDS TraceValues, FluentValues

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.VIEW
VARIABLES tc, upto, heap, phase
vars == <<tc, upto, heap, phase>>
Case == Cases[tc]
Op == Case.ops[upto + 1]

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ heap = <<>> /\ phase = "run"

Shown(x) == [see |-> Seen(x.v), py |-> x.py, lit |-> x.lit]
Watched(o) == [see |-> Seen(Val(o.see)), py |-> o.py, lit |-> o.lit]
Changed(h) == {i \in 1..Len(h) : Shown(h[i]) # Watched(Op.all[i])}
Kwargs == ArgsOf(Op.kw)

(* The rows of a date's table belong to the instants they are said to. *)
TableFits(x) == x.py = "datetime" => \A i \in 1..Len(x.zones) : LocalTime(InstantOf(x.civil, x.off), x.zones[i].off) = x.zones[i].civil
TextOf(x, tag) == Show([loc |-> Locales[tag], dates |-> IF tag \in DOMAIN Case.dates THEN Case.dates[tag] ELSE <<>>], x.v, S0).v.s

Why(h) ==
  CASE Op.op = "new" -> IF ~TableFits(Op.val) THEN "the table of local times" ELSE ""
    [] Op.op = "wrap" /\ Len(h) = Len(heap) /\ Op.raised = "" -> "wrong options or values are not refused"
    [] Op.op = "wrap" /\ Len(h) > Len(heap) /\ Op.raised # "" -> "raised " \o Op.raised
    [] Op.op = "fmt" -> IF Op.raised # "" THEN "raised " \o Op.raised ELSE IF Op.text # TextOf(heap[Op.of], Op.locale) THEN "text" ELSE ""
    [] OTHER -> ""
After == CASE Op.op = "new" -> Append(heap, [Op.val EXCEPT !.v = Val(Op.val.v)])
           [] Op.op = "wrap" -> heap \o Wrap(Op.how, heap[Op.of], Kwargs)
           [] OTHER -> heap
More == phase = "run" /\ upto < Len(Case.ops) /\ UNCHANGED tc
Step ==
  /\ More
  /\ LET h == After
         y == Why(h)
         z == IF y = "" /\ Prop = "C28" /\ (Len(Op.all) # Len(h) \/ Changed(h) # {}) THEN "values or options" ELSE y
     IN IF z = "" THEN heap' = h /\ upto' = upto + 1 /\ UNCHANGED phase
        ELSE /\ PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> z,
                        want |-> IF Op.op = "fmt" THEN TextOf(heap[Op.of], Op.locale) ELSE IF Len(h) = Len(Op.all) THEN [i \in Changed(h) |-> Shown(h[i])] ELSE <<>>]))
             /\ phase' = "bad" /\ UNCHANGED <<heap, upto>>
Finish == phase = "run" /\ upto = Len(Case.ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto, heap>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
