--------------------------- MODULE HighlightTrace ---------------------------
(***************************************************************************)
(* Validates recorded runs of the highlighter: src, tokens, again (a       *)
(* second run of the same lexer), raised.  Tokens are consumed one by one. *)
(***************************************************************************)
EXTENDS FluentHighlight, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tc, upto, left, phase
vars == <<tc, upto, left, phase>>
Case == Cases[tc]

Init == tc \in 1..Len(Cases) /\ upto = 0 /\ left = <<>> /\ phase = "new"
Bad(why, want) == PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> why, want |-> want])) /\ phase' = "bad" /\ UNCHANGED <<upto, left>>
Begin == /\ phase = "new" /\ UNCHANGED <<tc, upto>>
         /\ IF Case.raised # "" THEN Bad("raised " \o Case.raised, <<>>)
            ELSE IF Case.again # Case.tokens THEN Bad("a second run differs", <<>>)
            ELSE left' = Tokens(Case.src) /\ phase' = "run"
Token == /\ phase = "run" /\ left # <<>> /\ UNCHANGED tc
         /\ IF upto = Len(Case.tokens) THEN Bad("missing token", <<left[1]>>)
            ELSE IF Case.tokens[upto + 1] # left[1] THEN Bad("token differs", <<left[1]>>)
            ELSE left' = Tail(left) /\ upto' = upto + 1 /\ UNCHANGED phase
Finish == /\ phase = "run" /\ left = <<>> /\ UNCHANGED tc
          /\ IF upto # Len(Case.tokens) THEN Bad("extra token", <<>>)
             ELSE PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<upto, left>>
Next == Begin \/ Token \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
