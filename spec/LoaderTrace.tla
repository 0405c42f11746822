---------------------------- MODULE LoaderTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of a file loader on a changing file system.*)
(* A record: roots, cwd (path), parsed (texts and what the parser makes of *)
(* them), and operations                                                   *)
(*   put   path, node           a file, directory or link is made          *)
(*   cut   path                 a file or link is removed                  *)
(*   load  locale, ids -> sets (of bodies) when yielded, kept: what they   *)
(*         are after all is loaded (two loads may take turns), raised      *)
(***************************************************************************)
EXTENDS FluentLoader, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tc, upto, fs, phase
vars == <<tc, upto, fs, phase>>
Case == Cases[tc]
Op == Case.ops[upto + 1]

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run" /\ fs = (<<>> :> [t |-> "dir"])

ParsedAs(text) == LET i == CHOOSE i \in 1..Len(Case.parsed) : Case.parsed[i][1] = text IN Case.parsed[i][2]
Why ==
  LET y == Yields(fs, Case.cwd, Case.roots, Op.locale, Op.ids)
      want == [s \in 1..Len(y.sets) |-> [i \in 1..Len(y.sets[s]) |-> ParsedAs(y.sets[s][i])]]
  IN IF y.fails THEN IF Op.raised # "unicode" THEN "a file that isn't UTF-8 was read"
                     ELSE IF Len(Op.sets) > Len(want) \/ Op.sets # SubSeq(want, 1, Len(Op.sets)) THEN "sets before the failure" ELSE ""
     ELSE IF Op.raised # "" THEN "raised " \o Op.raised
     ELSE IF Len(Op.sets) # Len(want) THEN "number of sets"
     ELSE IF Op.sets # want THEN "resources of a set"
     ELSE IF Op.kept # want THEN "a set changed after it was yielded" ELSE ""

More == phase = "run" /\ upto < Len(Case.ops) /\ UNCHANGED tc
Put == More /\ Op.op = "put" /\ fs' = (Op.path :> Op.node) @@ fs /\ upto' = upto + 1 /\ UNCHANGED phase
Cut == More /\ Op.op = "cut" /\ fs' = [p \in DOMAIN fs \ {Op.path} |-> fs[p]] /\ upto' = upto + 1 /\ UNCHANGED phase
Load == /\ More /\ Op.op = "load" /\ UNCHANGED fs
        /\ LET w == Why IN IF w = "" THEN upto' = upto + 1 /\ UNCHANGED phase
           ELSE /\ PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> w, want |-> Yields(fs, Case.cwd, Case.roots, Op.locale, Op.ids)]))
                /\ phase' = "bad" /\ UNCHANGED upto
Finish == phase = "run" /\ upto = Len(Case.ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto, fs>>
Next == Put \/ Cut \/ Load \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
