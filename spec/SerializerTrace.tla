--------------------------- MODULE SerializerTrace ---------------------------
(***************************************************************************)
(* Validates runs of the real serializer.  A record has the AST given to   *)
(* it (body), the text it returned (text), the AST that text parses to     *)
(* (body2), and for C09 also: the text with junk (junky), the text of      *)
(* every entry alone (each), the texts of serializers that were used for   *)
(* other resources before (used), the text of body2 (text2) and the AST after   *)
(* all that (after).  For C36: the text, with junk or not (junk).          *)
(***************************************************************************)
EXTENDS FluentSerializer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.VIEW
VARIABLES tc, phase
vars == <<tc, phase>>
Case == Cases[tc]
Init == tc \in 1..Len(Cases) /\ phase = "new"

Judge(c) ==
  IF c.raised # "" THEN <<"raised", <<>>>>
  ELSE IF Prop = "C08"
  THEN IF Clean(c.body2) # Clean(c.body) THEN <<"round trip", Clean(c.body2)>>
       ELSE IF \E i \in 1..Len(c.body2) : c.body2[i].t = "Junk" THEN <<"serialized text has junk", <<>>>>
       ELSE <<"", <<>>>>
  ELSE IF Prop = "C36"
  THEN IF c.text # SerializeBody(c.body, c.junk) THEN <<"text", SerializeBody(c.body, c.junk)>>
       ELSE IF c.after # c.body THEN <<"AST modified", <<>>>>
       ELSE <<"", <<>>>>
  ELSE IF c.text # SerializeBody(c.body, FALSE) THEN <<"text", SerializeBody(c.body, FALSE)>>
  ELSE IF c.junky # SerializeBody(c.body, TRUE) THEN <<"text with junk", SerializeBody(c.body, TRUE)>>
  ELSE IF c.used # <<c.text, c.text, c.junky, c.junky>> THEN <<"text of a serializer used before", c.used>>
  ELSE IF c.each # [i \in 1..Len(c.body) |-> SerEntry(c.body[i], i % 2 = 0)] THEN <<"single entry", [i \in 1..Len(c.body) |-> SerEntry(c.body[i], i % 2 = 0)]>>
  ELSE IF c.after # c.body THEN <<"AST modified", <<>>>>
  ELSE IF c.text2 # c.text THEN <<"not idempotent", <<>>>>
  ELSE <<"", <<>>>>

Next ==
  /\ phase = "new"
  /\ UNCHANGED tc
  /\ LET j == Judge(Case) IN
     IF j[1] = "" THEN PrintT("DONE " \o ToString(tc)) /\ phase' = "done"
     ELSE PrintT("MISMATCH " \o ToJson([case |-> tc, why |-> j[1], want |-> j[2]])) /\ phase' = "bad"
Spec == Init /\ [][Next]_vars
=============================================================================
