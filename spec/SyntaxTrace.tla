---------------------------- MODULE SyntaxTrace ----------------------------
(***************************************************************************)
(* Validates runs of the real parser.  The trace has one record per source *)
(* text: src, and what the parser returned - body (with spans), ns (the    *)
(* same without spans), again (a second run with a used parser object),    *)
(* crlf (the body for the text with CRLF line ends), entry (parse_entry),  *)
(* end (the end of the resource's span), raised.  Which of these a record  *)
(* has, and which clauses apply, depends on the property (VIEW).           *)
(*                                                                         *)
(* For the conformance views the parser machine of FluentResource takes    *)
(* one step per source entry, in lock step with the observed body.         *)
(***************************************************************************)
EXTENDS FluentViews, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.VIEW

VARIABLES tc, mach, upto, phase
vars == <<tc, mach, upto, phase>>

Case == Cases[tc]
Src == Case.src
Obs == Case.body

Init == tc \in 1..Len(Cases) /\ mach = [p |-> 0, stash |-> <<>>] /\ upto = 0 /\ phase = "new"

Bad(why, want) == PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto, why |-> why, want |-> want])) /\ phase' = "bad"
Good == PrintT("DONE " \o ToString(tc)) /\ phase' = "done"

(* Properties of the observed result on its own. *)
SelfClauses ==
  IF Case.raised # "" THEN "raised"
  ELSE IF Prop = "C01" /\ ~Tiles(Src, Obs) THEN "text between entries is not blank, or entries overlap"
  ELSE IF Prop = "C01" /\ Case.again # Obs THEN "second run differs"
  ELSE IF Prop = "C04" /\ Case.end # Len(Src) THEN "span of the resource"
  ELSE IF Prop = "C04" /\ ~\A i \in 1..Len(Obs) : SpansNest(Obs[i]) THEN "spans are not nested or not in order"
  ELSE IF Prop = "C04" /\ ~\A i \in 1..Len(Obs) : SpansExact(Src, Obs[i]) THEN "span and text differ"
  ELSE IF Prop = "C04" /\ Case.ns # [i \in 1..Len(Obs) |-> NoSpans(Obs[i])] THEN "tree without spans differs"
  ELSE IF Prop = "C07" /\ ViewAll(Prop, Case.crlf) # ViewAll(Prop, Obs) THEN "result with CRLF differs"
  ELSE IF Prop = "C14" /\ Case.entry # FirstEntry(Src) THEN "first entry differs"
  ELSE ""

Begin ==
  /\ phase = "new"
  /\ UNCHANGED <<tc, upto>>
  /\ LET why == SelfClauses IN
     IF why # "" THEN Bad(why, IF why = "first entry differs" THEN <<FirstEntry(Src)>> ELSE <<>>) /\ UNCHANGED mach
     ELSE IF Prop \in {"C01", "C07", "C14"} THEN Good /\ UNCHANGED mach
     ELSE phase' = "run" /\ mach' = Start(Src)

(* The machine consumes one source entry; the observed body has to go on   *)
(* with what it emits.                                                     *)
Entry ==
  /\ phase = "run" /\ ~AtEnd(Src, mach)
  /\ LET r == Step(Src, mach)
         e == r.emit
     IN
     /\ mach' = r.m
     /\ upto' = upto + Len(e)
     /\ IF upto + Len(e) > Len(Obs) THEN Bad("missing entry", e)
        ELSE IF ViewAll(Prop, e) # ViewAll(Prop, SubSeq(Obs, upto + 1, upto + Len(e))) THEN Bad("entry differs", e)
        ELSE phase' = "run"
  /\ UNCHANGED tc

Finish ==
  /\ phase = "run" /\ AtEnd(Src, mach)
  /\ IF upto # Len(Obs) THEN Bad("extra entries", <<>>) ELSE Good
  /\ UNCHANGED <<tc, mach, upto>>

Next == Begin \/ Entry \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
