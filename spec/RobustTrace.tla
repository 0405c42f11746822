---------------------------- MODULE RobustTrace ----------------------------
(***************************************************************************)
(* C16 for values, options, functions and locales beyond FluentResolver's  *)
(* domain: what a call may answer at all.  A record has, per call, whether *)
(* it raised, what it returned (kind), the text, the classes of the        *)
(* errors, the same of the call repeated, and the texts with which the     *)
(* pattern starts and ends (pre, suf; empty if with a placeable).          *)
(*   Answered: a string and a list of errors, nothing raised               *)
(*   Told:     giving up or a visible '???' comes with errors              *)
(*   Framed:   the text around the placeables is there unless it gave up   *)
(*   Steady:   the same again                                              *)
(***************************************************************************)
EXTENDS FluentText, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
GaveUp == T("{???}")
VARIABLES tc, upto, phase
vars == <<tc, upto, phase>>

Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

Answered(c) == c.raised = "" /\ c.kind = "str"
Told(c) == c.text = GaveUp => c.errs # <<>>
Framed(c) == c.text = GaveUp \/ (Starts(c.text, c.pre) /\ Ends(c.text, c.suf))
Steady(c) == c.text2 = c.text /\ c.errs2 = c.errs
Broken(c) == IF ~Answered(c) THEN "Answered" ELSE IF ~Told(c) THEN "Told" ELSE IF ~Framed(c) THEN "Framed" ELSE IF ~Steady(c) THEN "Steady" ELSE ""

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run"
Call == /\ phase = "run" /\ upto < Len(Cases[tc].calls)
        /\ LET w == Broken(Cases[tc].calls[upto + 1]) IN
           IF w = "" THEN upto' = upto + 1 /\ UNCHANGED phase
           ELSE PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> w, want |-> <<>>])) /\ phase' = "bad" /\ UNCHANGED upto
        /\ UNCHANGED tc
Finish == phase = "run" /\ upto = Len(Cases[tc].calls) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
