----------------------------- MODULE ThreadsMC ------------------------------
(***************************************************************************)
(* Tasks that format messages of one bundle at the same time (C35).        *)
(*                                                                         *)
(* Here formatting is a machine of small steps: a task has a stack of      *)
(* patterns half done, its own set of patterns being resolved, its own     *)
(* errors and arguments.  All that tasks share is the entries compiled so  *)
(* far: who needs an entry that isn't compiled yet compiles it and then    *)
(* stores it; meanwhile others may have done the same.  MODE "keep": the   *)
(* entry stored first is the one that all use; "overwrite": each stores    *)
(* and uses its own (this is not sound: the entry a message was got with   *)
(* is then not the one that references lead to, and a cycle is noticed one *)
(* turn too late).                                                         *)
(*                                                                         *)
(* In every small world, for all interleavings of the tasks: each task     *)
(* ends with what Format of FluentResolver gives for it alone; an entry,   *)
(* once compiled, stays; no task waits for another.                        *)
(* With EVERY > 0, schedules are printed with the results demanded, to be  *)
(* replayed with the real code.                                            *)
(***************************************************************************)
EXTENDS FluentResolver, FluentNodes, FiniteSets, Json, IOUtils

Level == IOEnv.LEVEL
Mode == IOEnv.MODE
Every == CHOOSE k \in 0..1000 : ToString(k) = IOEnv.EVERY

Template(i, a) ==
  CASE i = 1 -> Text("a ")
    [] i = 2 -> Plc(VarRef("x"))
    [] i = 3 -> Plc(MsgRef("n"))
    [] i = 4 -> Plc(TermRef("t", <<>>))
    [] i = 5 -> Plc(TermRef("t", <<CallArgs(<<>>, <<NamedArg("x", StrLit("k"))>>)>>))
    [] i = 6 -> Plc(MsgRef("m"))
    [] i = 7 -> Plc(Sel(VarRef("x"), <<Var(Idn("one"), FALSE, Pat(a + 1, <<Plc(MsgRef("n"))>>)), Var(Idn("other"), TRUE, Pat(a + 2, <<Text("o"), Plc(VarRef("x"))>>))>>))
    [] i = 8 -> Plc(MsgRef("q"))
    [] i = 9 -> Plc(MsgAttr("n", "b"))

PatternOf(s) == Pat(1, [i \in 1..Len(s) |-> Template(s[i], 10 * i)])
Entry(t, name, s) == Nd(t, 0, <<>>, <<<<Idn(name)>>, <<PatternOf(s)>>, <<Nd("Attribute", 0, <<>>, <<<<Idn("b")>>, <<Pat(90, <<Template(s[1], 91)>>)>>>>)>>, <<>>>>)

ArgSets == <<NoOpts, (T("x") :> StrV(T("one"))), (T("x") :> NumV([neg |-> FALSE, d |-> <<1>>, x |-> 0], NoOpts))>>
Plurals == [dec |-> <<46>>, grp |-> <<44>>, cur |-> <<>>, plurals |-> <<[tag |-> T("one"), rule |-> [op |-> "in", x |-> "i", mod |-> 0, r |-> <<<<1, 1>>>>]]>>, ordinals |-> <<>>,
            decimal |-> [pre |-> <<<<>>, <<DASH>>>>, suf |-> <<<<>>, <<>>>>, g |-> <<3, 3>>, ip |-> <<1, 1>>, fp |-> <<0, 3>>]]

(* Per level: templates used in m; in n and t; what the tasks do: which    *)
(* message, which arguments.                                               *)
Used == CASE Level = "quick" -> {1, 2, 3, 5, 6} [] Level = "wide" -> 1..9 [] OTHER -> {2, 3, 4, 6}
Firsts == IF Level = "quick" THEN {2, 3, 6} ELSE Used
Seconds == IF Level = "quick" THEN {2, 3, 5} ELSE Used
Shapes == {<<i>> : i \in Used} \cup (IF Level = "three" THEN {} ELSE Firsts \X Seconds)
Others == IF Level = "wide" THEN {<<i>> : i \in Used} \cup {<<i, 2>> : i \in {3, 4, 6}} ELSE {<<i>> : i \in Used}
Jobs == CASE Level = "quick" -> {<<[msg |-> "m", a |-> 2], [msg |-> "m", a |-> 1]>>, <<[msg |-> "m", a |-> 3], [msg |-> "n", a |-> 2]>>}
          [] Level = "wide" -> {<<[msg |-> "m", a |-> 3], [msg |-> "m", a |-> 1]>>, <<[msg |-> "m", a |-> 2], [msg |-> "n", a |-> 1]>>}
          [] OTHER -> {<<[msg |-> "m", a |-> 2], [msg |-> "m", a |-> 1], [msg |-> "n", a |-> 3]>>}

VARIABLES wm, wn, wt, job, iso,      \* the world and the tasks (fixed)
          ts,                        \* the tasks' states
          compiled, made,            \* compiled entry by key (0: none); how many were compiled
          sched                      \* who made a step (not part of the view)
vars == <<wm, wn, wt, job, iso, ts, compiled, made, sched>>

Keys == {"m", "n", "t"}
KeyOf(x) == IF x.t = "TermReference" THEN "t" ELSE IF Name(x) = T("m") THEN "m" ELSE IF Name(x) = T("n") THEN "n" ELSE "none"
Node(key) == CASE key = "m" -> Entry("Message", "m", wm) [] key = "n" -> Entry("Message", "n", wn) [] key = "t" -> Entry("Term", "t", wt)
World == [iso |-> iso, funs |-> NoOpts, loc |-> Plurals, dates |-> <<>>,
          msgs |-> (T("m") :> [gen |-> 1, node |-> Node("m")]) @@ (T("n") :> [gen |-> 2, node |-> Node("n")]),
          terms |-> (T("t") :> [gen |-> 3, node |-> Node("t")])]
Alone(p) == Format(World, IF job[p].msg = "m" THEN 1 ELSE 2, ValuePattern(Node(job[p].msg))[1], ArgSets[job[p].a])

(***************************************************************************)
(* A task.  at: "get" - asks for its message; "miss" - need isn't compiled *)
(* (want: the key); "store" - it compiled it (mine); "go" - goes on with   *)
(* the entry (have); "run" - at the next element; "done".                  *)
(* A frame: the pattern, where it is in it, the text so far, the compiled  *)
(* entry it belongs to, the arguments in force.                            *)
(***************************************************************************)
Fresh == [at |-> "get", want |-> "none", have |-> 0, mine |-> 0, fs |-> <<>>, act |-> {}, errs |-> <<>>, text |-> <<>>]
Top(t) == t.fs[Len(t.fs)]
Frame(pat, id, args, miss) == [pat |-> pat, i |-> 1, buf |-> <<>>, id |-> id, args |-> args, miss |-> miss]
Element(t) == Top(t).pat.k[1][Top(t).i]

Fail(t, c, m) == [t EXCEPT !.errs = Append(@, [c |-> c, m |-> m])]
(* The element's text is known. *)
Say(t, s, marked) ==
  LET f == Top(t)
      q == IF marked /\ iso /\ Len(f.pat.k[1]) > 1 THEN <<FSI>> \o s \o <<PDI>> ELSE s
  IN [t EXCEPT !.at = "run", !.fs[Len(t.fs)] = [f EXCEPT !.buf = @ \o q, !.i = @ + 1]]

Enter(t, pat, id, args, miss) ==
  LET here == <<id, pat.a>> IN
  IF Plain(pat) THEN LET s == FlatText([i \in 1..Len(pat.k[1]) |-> PlainText(pat.k[1][i])]) IN
                     IF t.fs = <<>> THEN [t EXCEPT !.at = "done", !.text = s] ELSE Say(t, s, TRUE)
  ELSE IF here \in t.act THEN Say(Fail(t, "FluentCyclicReferenceError", T("Cyclic reference")), T("???"), TRUE)
  ELSE [t EXCEPT !.at = "run", !.act = @ \cup {here}, !.fs = Append(@, Frame(pat, id, args, miss))]

(* The pattern at the top is finished. *)
Leave(t) ==
  LET f == Top(t)
      u == [t EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1), !.act = @ \ {<<f.id, f.pat.a>>}]
  IN IF u.fs = <<>> THEN [u EXCEPT !.at = "done", !.text = f.buf] ELSE Say(u, f.buf, TRUE)

ArgsFor(f, x) == IF x.t = "MessageReference" THEN f.args
                 ELSE IF x.k[3] = <<>> THEN NoOpts
                 ELSE Name(x.k[3][1].k[2][1]) :> StrV(Decode(x.k[3][1].k[2][1].k[2][1].v))

(* With the entry asked for at hand. *)
Go(p, t) ==
  IF t.fs = <<>> THEN Enter(t, ValuePattern(Node(job[p].msg))[1], t.have, ArgSets[job[p].a], TRUE)
  ELSE LET f == Top(t)
           x == Element(t).k[1][1]
           pat == IF x.k[2] # <<>> THEN AttributePattern(Node(t.want), x.k[2][1].v)[1] ELSE ValuePattern(Node(t.want))[1]
       IN Enter(t, pat, t.have, ArgsFor(f, x), f.miss /\ x.t = "MessageReference")

ShowValue(v) == IF v.k = "n" THEN v.s ELSE IF v.k = "s" THEN v.s ELSE FormatNumber(Plurals, v.n, Effective(v.o))
LookUp(t, key) == IF compiled[key] = 0 THEN [t EXCEPT !.at = "miss", !.want = key] ELSE [t EXCEPT !.at = "go", !.want = key, !.have = compiled[key]]

Run(t) ==
  LET f == Top(t) IN
  IF f.i > Len(f.pat.k[1]) THEN Leave(t)
  ELSE LET el == Element(t) IN
  IF el.t = "TextElement" THEN Say(t, el.v, FALSE)
  ELSE LET x == el.k[1][1]
           v == IF Has(f.args, T("x")) THEN f.args[T("x")] ELSE NoneV(T("x"))
           u == IF v.k = "n" /\ f.miss THEN Fail(t, "FluentReferenceError", T("Unknown external: x")) ELSE t
       IN CASE x.t = "VariableReference" -> Say(u, ShowValue(v), TRUE)
            [] x.t = "SelectExpression" ->
                 LET one == v.k # "n" /\ ((v.k = "s" /\ v.s = T("one")) \/ v.k = "d")
                 IN Enter(u, x.k[2][IF one THEN 1 ELSE 2].k[2][1], f.id, f.args, f.miss)
            [] OTHER -> IF KeyOf(x) = "none" THEN Say(Fail(t, "FluentReferenceError", UnknownEntry(x)), <<LBRACE>> \o RefId(x) \o <<RBRACE>>, TRUE)
                        ELSE LookUp(t, KeyOf(x))

(* Compiling takes time; made counts the compiled entries. *)
Step(p) ==
  LET t == ts[p] IN
  /\ t.at # "done"
  /\ CASE t.at = "get" -> ts' = [ts EXCEPT ![p] = LookUp(t, job[p].msg)] /\ UNCHANGED <<compiled, made>>
       [] t.at = "miss" -> ts' = [ts EXCEPT ![p] = [t EXCEPT !.at = "store", !.mine = made + 1]] /\ made' = made + 1 /\ UNCHANGED compiled
       [] t.at = "store" -> LET id == IF Mode = "keep" /\ compiled[t.want] # 0 THEN compiled[t.want] ELSE t.mine IN
                            ts' = [ts EXCEPT ![p] = [t EXCEPT !.at = "go", !.have = id]] /\ compiled' = [compiled EXCEPT ![t.want] = id] /\ UNCHANGED made
       [] t.at = "go" -> ts' = [ts EXCEPT ![p] = Go(p, t)] /\ UNCHANGED <<compiled, made>>
       [] t.at = "run" -> ts' = [ts EXCEPT ![p] = Run(t)] /\ UNCHANGED <<compiled, made>>
  /\ sched' = Append(sched, p)
  /\ UNCHANGED <<wm, wn, wt, job, iso>>

Init == /\ wm \in Shapes /\ wn \in Others /\ wt \in Others /\ job \in Jobs /\ iso = (wm[1] % 2 = 1)
        /\ ts = [p \in 1..Len(job) |-> Fresh]
        /\ compiled = [k \in Keys |-> 0] /\ made = 0 /\ sched = <<>>

Hash == FoldLeft(LAMBDA a, i : (a * 31 + i) % 100003, 7, wm \o <<0>> \o wn \o <<0>> \o wt \o <<job[1].a>>)
Sampled == Every > 0 /\ Hash % Every = 0
AllDone == \A p \in 1..Len(ts) : ts[p].at = "done"
Case == [entries |-> <<Node("m"), Node("n"), Node("t")>>, iso |-> iso, sched |-> sched,
         jobs |-> [p \in 1..Len(job) |-> [msg |-> job[p].msg, args |-> job[p].a, text |-> ts[p].text, errs |-> ts[p].errs]]]
Next == \E p \in 1..Len(ts) : Step(p) /\ ((Sampled /\ AllDone') => PrintT("OUT " \o ToJson(Case')))
Spec == Init /\ [][Next]_vars

(* Some more paths of the worlds that are printed. *)
Path == IF Sampled THEN FoldLeft(LAMBDA a, i : (a * 3 + i) % 3, 0, sched) ELSE 0
View == <<wm, wn, wt, job, ts, compiled, made, Path>>

AsAlone == \A p \in 1..Len(ts) : ts[p].at = "done" => LET r == Alone(p) IN ts[p].text = r.text /\ ts[p].errs = r.errs
OwnAct == \A p \in 1..Len(ts) : Len(ts[p].fs) = Cardinality(ts[p].act)
Stays == [][\A k \in Keys : compiled[k] # 0 => compiled'[k] = compiled[k]]_vars
NoWaiting == \A p \in 1..Len(ts) : ts[p].at # "done" => ENABLED Step(p)
=============================================================================
