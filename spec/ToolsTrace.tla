----------------------------- MODULE ToolsTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of the command-line tools.  A record has   *)
(* operations, in order:                                                   *)
(*   write  f, c              the application writes a file (content c)    *)
(*   fmt, parse, text, color  f, to -> ok, out, ast (a list: the AST the   *)
(*          output denotes as JSON, if it does), kept (no file changed).   *)
(*          The output goes to the file to, unless that is "" or it fails. *)
(* The state has the files.                                                *)
(***************************************************************************)
EXTENDS FluentTools, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Styles == TLCEval(JsonDeserialize(IOEnv.STYLES))
VARIABLES tc, upto, files, phase
vars == <<tc, upto, files, phase>>
Case == Cases[tc]
Op == Case.ops[upto + 1]
Content(f) == IF f \in DOMAIN files THEN files[f] ELSE None
Put(f, c) == [x \in DOMAIN files \cup {f} |-> IF x = f THEN c ELSE files[x]]

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ phase = "run" /\ files = <<>>
More == phase = "run" /\ upto < Len(Case.ops)
Bad(why, want) == PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> why, want |-> want])) /\ phase' = "bad"

Write == /\ More /\ Op.op = "write"
         /\ files' = Put(Op.f, Op.c) /\ upto' = upto + 1 /\ UNCHANGED <<tc, phase>>

Tool ==
  /\ More /\ Op.op # "write" /\ UNCHANGED tc
  /\ LET r == Run(Op.op, Content(Op.f), Styles)
         stay == UNCHANGED <<upto, files>>
     IN IF ~Op.kept THEN Bad("a file changed", <<>>) /\ stay
        ELSE IF Op.ok # r.ok THEN Bad(IF r.ok THEN "failed" ELSE "did not fail", <<>>) /\ stay
        ELSE IF r.k = "text" /\ Op.out # r.t THEN Bad("output", r.t) /\ stay
        ELSE IF r.k = "ast" /\ Op.ast # <<[end |-> r.end, body |-> r.body]>> THEN Bad("AST", r.body) /\ stay
        ELSE /\ upto' = upto + 1 /\ UNCHANGED phase
             /\ files' = IF Op.to = "" \/ ~r.ok THEN files ELSE Put(Op.to, Printed(r, Op.out))

Finish == phase = "run" /\ upto = Len(Case.ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto, files>>
Next == Write \/ Tool \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
