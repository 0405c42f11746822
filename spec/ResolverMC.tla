----------------------------- MODULE ResolverMC -----------------------------
(***************************************************************************)
(* Every small world of two messages m, n and a term t, whose patterns are *)
(* made of the element templates below, formatted with and without         *)
(* isolation and with different arguments.  Checked in each: C16 (text, no *)
(* exception, errors or none), C19 (terms are independent of the           *)
(* arguments), C20 (isolation only adds marks, and they nest), C21         *)
(* (a cyclic reference error exactly if the references lead back), C22     *)
(* (small worlds never give up).                                           *)
(* With EVERY > 0, worlds are printed with the results the specification    *)
(* demands, to be replayed with the real code.                             *)
(***************************************************************************)
EXTENDS FluentResolver, FluentNodes, FiniteSets, Json, IOUtils

Level == IOEnv.LEVEL
Every == CHOOSE k \in 0..100 : ToString(k) = IOEnv.EVERY   \* every how manieth world to print; 0: none

(* Templates; a is unique for the place.  Refs: what a template refers to, *)
(* if it always does.                                                      *)
Template(i, a) ==
  CASE i = 1 -> Text("a ")
    [] i = 2 -> Plc(VarRef("x"))
    [] i = 3 -> Plc(MsgRef("n"))
    [] i = 4 -> Plc(TermRef("t", <<>>))
    [] i = 5 -> Plc(TermRef("t", <<CallArgs(<<>>, <<NamedArg("x", StrLit("k"))>>)>>))
    [] i = 6 -> Plc(MsgRef("m"))
    [] i = 7 -> Plc(Sel(VarRef("x"), <<Var(Idn("one"), FALSE, Pat(a + 1, <<Plc(MsgRef("n"))>>)), Var(Idn("other"), TRUE, Pat(a + 2, <<Text("o"), Plc(VarRef("x"))>>))>>))
    [] i = 8 -> Plc(StrLit("s"))
    [] i = 9 -> Plc(MsgRef("q"))
    [] i = 10 -> Plc(Fn("ARG", <<MsgRef("n")>>, <<>>))
    [] i = 11 -> Plc(MsgAttr("n", "b"))
    [] i = 12 -> Plc(Plc(VarRef("x")))
    [] i = 13 -> Plc(Sel(TermAttr("t", "b", <<>>), <<Var(Idn("k"), TRUE, Pat(a + 1, <<Text("K")>>)), Var(NumLit("1"), FALSE, Pat(a + 2, <<Plc(TermRef("t", <<>>))>>))>>))
    [] i = 14 -> Plc(Fn("FAIL", <<VarRef("x")>>, <<>>))
    [] i = 15 -> Plc(TermRef("t", <<CallArgs(<<MsgRef("m")>>, <<NamedArg("y", NumLit("1"))>>)>>))

Used == CASE Level = "quick" -> {1, 2, 3, 4, 5, 6} [] Level = "wide" -> 1..9 [] Level = "odd" -> {2, 3, 4, 6, 10, 11, 13} [] OTHER -> 1..15
Shapes == {<<i>> : i \in Used} \cup (Used \X (Used \ {8}))

PatternOf(s) == Pat(1, [i \in 1..Len(s) |-> Template(s[i], 10 * i)])
Entry(t, name, s) == Nd(t, 0, <<>>, <<<<Idn(name)>>, <<PatternOf(s)>>, <<Nd("Attribute", 0, <<>>, <<<<Idn("b")>>, <<Pat(90, <<Template(s[1], 91)>>)>>>>)>>, <<>>>>)

ArgSets == <<NoOpts, (T("x") :> StrV(T("one"))), (T("x") :> NumV([neg |-> FALSE, d |-> <<1>>, x |-> 0], NoOpts))>>
Plurals == [dec |-> <<46>>, grp |-> <<44>>, cur |-> <<>>, plurals |-> <<[tag |-> T("one"), rule |-> [op |-> "in", x |-> "i", mod |-> 0, r |-> <<<<1, 1>>>>]]>>, ordinals |-> <<>>,
            decimal |-> [pre |-> <<<<>>, <<DASH>>>>, suf |-> <<<<>>, <<>>>>, g |-> <<3, 3>>, ip |-> <<1, 1>>, fp |-> <<0, 3>>]]
Functions == (T("ARG") :> [do |-> "arg", i |-> 1]) @@ (T("FAIL") :> [do |-> "raise", cls |-> "Custom", msg |-> T("boom")])

VARIABLES wm, wn, wt, phase
vars == <<wm, wn, wt, phase>>

WorldOf(iso) == [iso |-> iso, funs |-> Functions, loc |-> Plurals, dates |-> <<>>,
                 msgs |-> (T("m") :> [gen |-> 1, node |-> Entry("Message", "m", wm)]) @@ (T("n") :> [gen |-> 2, node |-> Entry("Message", "n", wn)]),
                 terms |-> (T("t") :> [gen |-> 3, node |-> Entry("Term", "t", wt)])]
Run(iso, args) == Format(WorldOf(iso), 1, PatternOf(wm), args)

Strip(s) == SelectSeq(s, LAMBDA c : c \notin {FSI, PDI})
(* Marks nest: depth never below zero, zero at the end. *)
Balanced(s) == LET z == FoldLeft(LAMBDA d, c : IF d < 0 THEN d ELSE IF c = FSI THEN d + 1 ELSE IF c = PDI THEN d - 1 ELSE d, 0, s) IN z = 0

(* What is always referred to by a shape, as patterns: m, n, t (values), B  *)
(* for the attribute of n.                                                 *)
RefsOf(i) == CASE i = 3 -> {"n"} [] i \in {4, 5, 15} -> {"t"} [] i = 6 -> {"m"} [] i = 10 -> {"n"} [] i = 11 -> {"nb"} [] OTHER -> {}
Refs(node) == LET s == IF node = "m" THEN wm ELSE IF node = "t" THEN wt ELSE IF node = "nb" THEN <<wn[1]>> ELSE wn
              IN UNION {RefsOf(s[i]) : i \in 1..Len(s)}
RECURSIVE Reach(_)
Reach(set) == LET more == set \cup UNION {Refs(x) : x \in set} IN IF more = set THEN set ELSE Reach(more)
Branchy == \E s \in {wm, wn, wt} : \E i \in 1..Len(s) : s[i] \in {7, 13}
CycleAhead == \E x \in Reach({"m"}) : x \in Reach(Refs(x))
(* A pattern of text only is a plain string, which can't be part of a cycle *)
HasCyclic(r) == \E i \in 1..Len(r.errs) : r.errs[i].c = "FluentCyclicReferenceError"

C16Holds(r) == /\ r.text # T("{???}")
               /\ (r.errs = <<>>) = ~\E i \in 1..Len(r.errs) : TRUE
C20Holds(a) == LET p == Run(TRUE, a) q == Run(FALSE, a) IN
               Strip(p.text) = q.text /\ p.errs = q.errs /\ Balanced(p.text) /\ Strip(q.text) = q.text
C21Holds(r) == Branchy \/ (HasCyclic(r) <=> CycleAhead)
C22Holds(r) == \A i \in 1..Len(r.errs) : r.errs[i].c # "ValueError"
(* The arguments reach the text of m only through variables outside terms. *)
Sees(node) == LET s == IF node = "m" THEN wm ELSE IF node = "nb" THEN <<wn[1]>> ELSE wn IN
              \E i \in 1..Len(s) : s[i] \in {2, 7, 12, 14}
RECURSIVE Outside(_)
Outside(set) == LET more == (set \cup UNION {Refs(x) : x \in set}) \ {"t"} IN IF more = set THEN set ELSE Outside(more)
C19Holds == (~Branchy /\ ~\E x \in Outside({"m"}) : Sees(x)) => Run(TRUE, ArgSets[2]) = Run(TRUE, ArgSets[1])

Single == {s \in Shapes : Len(s) = 1}
Init == wm \in Shapes /\ wn \in (IF Level = "other" THEN Single ELSE Shapes) /\ wt \in (IF Level = "odd" THEN Shapes ELSE Single) /\ phase = "new"
Ok(r) == C16Holds(r) /\ C21Holds(r) /\ C22Holds(r)
Judge == /\ \A i \in 1..3 : LET r == Run(TRUE, ArgSets[i]) IN Ok(r) /\ C20Holds(ArgSets[i])
         /\ C19Holds
(* A part of the worlds, spread evenly by a hash of the shapes. *)
Hash == FoldLeft(LAMBDA a, i : (a * 31 + i) % 100003, 7, wm \o <<0>> \o wn \o <<0>> \o wt)
Sampled == Every > 0 /\ Hash % Every = 0
Case == LET i == 1 + ((Hash \div 7) % 3)
            iso == (Hash \div 3) % 2 = 0
            r == Run(iso, ArgSets[i])
        IN [entries |-> <<Entry("Message", "m", wm), Entry("Message", "n", wn), Entry("Term", "t", wt)>>, args |-> i, iso |-> iso, text |-> r.text, errs |-> r.errs]
Next == /\ phase = "new"
        /\ UNCHANGED <<wm, wn, wt>>
        /\ (Sampled => PrintT("OUT " \o ToJson(Case)))
        /\ phase' = IF Judge THEN "done" ELSE "bad"
Spec == Init /\ [][Next]_vars
Sound == phase # "bad"
=============================================================================
