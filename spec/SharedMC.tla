------------------------------ MODULE SharedMC ------------------------------
(***************************************************************************)
(* One parser object, two threads that parse texts of up to SIZE pieces    *)
(* with it, an entry at a time, in any order (C36).  The object has its    *)
(* settings, and nothing of a text that is being parsed: where a task is,  *)
(* and the comment it holds back, is its own.  Whatever the order, each    *)
(* task ends with the entries of its text.  With EVERY > 0, schedules are  *)
(* printed with what each has to get.                                      *)
(***************************************************************************)
EXTENDS FluentResource, Sequences, Json, IOUtils, SequencesExt

Size == CHOOSE k \in 1..9 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..1000 : ToString(k) = IOEnv.EVERY

Pieces == <<T("a = b") \o <<10>>, T("# c") \o <<10>>, T("## g") \o <<10>>, T("-t = { $x }") \o <<10>>, T("e {") \o <<10>>, <<10>>>>
Texts == UNION {[1..n -> 1..Len(Pieces)] : n \in 1..Size}
TextOf(s) == FlatText([i \in 1..Len(s) |-> Pieces[s[i]]])

VARIABLES picked, mach, out, sched
vars == <<picked, mach, out, sched>>

Src(p) == TextOf(picked[p])
Init == /\ picked \in Texts \X Texts
        /\ mach = [p \in 1..2 |-> Start(Src(p))] /\ out = <<<<>>, <<>>>> /\ sched = <<>>
Over(p) == AtEnd(Src(p), mach[p])
Take(p) == /\ ~Over(p)
           /\ LET r == Step(Src(p), mach[p]) IN mach' = [mach EXCEPT ![p] = r.m] /\ out' = [out EXCEPT ![p] = @ \o r.emit]
           /\ sched' = Append(sched, p)
           /\ UNCHANGED picked
Result(p) == out[p]
Hash == FoldLeft(LAMBDA a, i : (a * 31 + i) % 100003, 7, picked[1] \o <<0>> \o picked[2])
Sampled == Every > 0 /\ Hash % Every = 0
Show == (Sampled /\ Over(1)' /\ Over(2)') => PrintT("OUT " \o ToJson([texts |-> [p \in 1..2 |-> Src(p)], bodies |-> out', sched |-> sched']))
Next == \E p \in 1..2 : Take(p) /\ Show
Spec == Init /\ [][Next]_vars
AsAlone == \A p \in 1..2 : Over(p) => out[p] = Body(Src(p))
=============================================================================
