------------------------------ MODULE LoaderMC ------------------------------
(***************************************************************************)
(* The loader step by step - one requested resource of one root at a time  *)
(* - on all small file systems, with changes between loads.                *)
(*   Agrees:   what was yielded in the end is what Yields describes        *)
(*   Sound:    no empty set; no more sets than roots                       *)
(*   Resolved: every path looked up is a node that isn't a link            *)
(* Histories are printed with what they have to yield, and replayed.       *)
(***************************************************************************)
EXTENDS FluentLoader, FiniteSets, Json, IOUtils

Every == CHOOSE k \in 0..500 : ToString(k) = IOEnv.EVERY
Loads == CHOOSE k \in 1..4 : ToString(k) = IOEnv.SIZE

Slot(s) == [i \in 1..Len(s) |-> T(s[i])]
Slots == TLCEval(<<Slot(<<"1", "en", "a">>), Slot(<<"1", "fr", "a">>), Slot(<<"1", "en", "b">>), Slot(<<"2", "a">>), Slot(<<"2", "en.c">>)>>)
Dirs == TLCEval({<<>>, Slot(<<"1">>), Slot(<<"1", "en">>), Slot(<<"1", "fr">>), Slot(<<"2">>)})
RootsOf == TLCEval({<<T("1/{locale}"), T("2")>>, <<T("2/"), T("1/{locale}")>>, <<T("/1/{locale}/../{locale}")>>})
Requests == TLCEval({<<T("a"), T("b"), T("{locale}.c")>>, <<T("b"), T("a"), T("b")>>, <<T("{locale}.c"), T("./a")>>, <<T("/2/a"), T("a")>>})
LocalesOf == TLCEval({T("en"), T("fr")})

(* What a place may have: the bytes name the place. *)
File(i) == [t |-> "file", b |-> <<65 + i>>]
Link(to) == [t |-> "link", to |-> T(to)]
Nothing == [t |-> "none"]
Folder == [t |-> "dir"]
Contents(i) ==
  IF IOEnv.WIDE = "yes" THEN {Nothing, File(i), Folder, Link("../../2/a")} \cup (IF i = 4 THEN {[t |-> "file", b |-> <<255>>], Link("a")} ELSE {})
  ELSE CASE i = 1 -> {Nothing, File(1), Folder, Link("../../2/a")}
         [] i = 3 -> {Nothing, File(3), Link("a")}
         [] i = 4 -> {Nothing, File(4), Folder, [t |-> "file", b |-> <<255>>], Link("a")}
         [] OTHER -> {Nothing, File(i)}

VARIABLES roots, has, now, hist
vars == <<roots, has, now, hist>>
fsOf(h) == [p \in Dirs \cup {Slots[i] : i \in {j \in 1..Len(Slots) : h[j].t # "none"}} |->
            IF p \in Dirs THEN [t |-> "dir"] ELSE h[CHOOSE i \in 1..Len(Slots) : Slots[i] = p]]
FS == fsOf(has)

Idle == [on |-> FALSE]
Init == /\ roots \in RootsOf /\ now = Idle /\ hist = <<>>
        /\ has \in [1..Len(Slots) -> UNION {Contents(i) : i \in 1..Len(Slots)}] /\ \A i \in 1..Len(Slots) : has[i] \in Contents(i)

Ask == ~now.on /\ Cardinality({i \in 1..Len(hist) : hist[i].op = "load"}) < Loads /\ UNCHANGED <<roots, has, hist>>
       /\ \E loc \in LocalesOf, ids \in Requests : now' = [on |-> TRUE, loc |-> loc, ids |-> ids, r |-> 1, i |-> 1, set |-> <<>>, sets |-> <<>>]
Change == /\ ~now.on /\ hist # <<>> /\ hist[Len(hist)].op = "load" /\ Cardinality({i \in 1..Len(hist) : hist[i].op = "load"}) < Loads /\ UNCHANGED <<roots, now>>
          /\ \E i \in {1, 4} : \E c \in {[t |-> "none"], File(i)} : has[i] # c /\ has' = [has EXCEPT ![i] = c] /\ hist' = Append(hist, [op |-> "change", i |-> i, c |-> c])
Done(fails) == now' = Idle /\ hist' = Append(hist, [op |-> "load", has |-> has, loc |-> now.loc, ids |-> now.ids, sets |-> now.sets, fails |-> fails])
Look == /\ now.on /\ now.r <= Len(roots) /\ now.i <= Len(now.ids) /\ UNCHANGED <<roots, has>>
        /\ LET f == FileAt(FS, <<>>, PathOf(roots[now.r], now.ids[now.i], now.loc)) IN
           IF f = <<>> THEN now' = [now EXCEPT !.i = @ + 1] /\ UNCHANGED hist
           ELSE LET u == Utf8(f[1], 1, <<>>) IN
                IF u = <<>> THEN Done(TRUE)
                ELSE now' = [now EXCEPT !.i = @ + 1, !.set = Append(@, u[1])] /\ UNCHANGED hist
NextRoot == now.on /\ now.r <= Len(roots) /\ now.i > Len(now.ids) /\ UNCHANGED <<roots, has, hist>>
            /\ now' = [now EXCEPT !.r = @ + 1, !.i = 1, !.set = <<>>, !.sets = IF now.set = <<>> THEN @ ELSE Append(@, now.set)]
End == now.on /\ now.r > Len(roots) /\ UNCHANGED <<roots, has>> /\ Done(FALSE)
Steps == Ask \/ Change \/ Look \/ NextRoot \/ End

Kinds == [i \in 1..Len(Slots) |-> has[i].t]
Hash == FoldLeft(LAMBDA a, i : (a * 7 + Len(has[i].t) * (IF has[i].t = "link" THEN 3 ELSE 1)) % 10007, 1, [i \in 1..Len(Slots) |-> i])
        + FoldLeft(LAMBDA a, h : (a * 5 + (IF h.op = "load" THEN Len(h.sets) + 3 * Len(h.ids) + h.loc[1] + h.ids[1][1] ELSE h.i)) % 10007, Len(roots), hist')
Finished == hist' # hist /\ Cardinality({i \in 1..Len(hist') : hist'[i].op = "load"}) = Loads
Next == Steps /\ ((Every > 0 /\ Finished /\ Hash % Every = 0) => PrintT("OUT " \o ToJson([roots |-> roots, hist |-> hist'])))
Spec == Init /\ [][Next]_vars

Agrees == now.on /\ now.r > Len(roots) => Yields(FS, <<>>, roots, now.loc, now.ids) = [sets |-> now.sets, fails |-> FALSE]
Failing == [][now.on /\ ~now'.on /\ hist'[Len(hist')].fails => LET y == Yields(FS, <<>>, roots, now.loc, now.ids) IN y.fails /\ y.sets = now.sets]_vars
Sound == now.on => Len(now.sets) <= Len(roots) /\ \A k \in 1..Len(now.sets) : now.sets[k] # <<>>
Resolved == now.on /\ now.r <= Len(roots) /\ now.i <= Len(now.ids) =>
  LET p == LookUp(FS, <<>>, PathOf(roots[now.r], now.ids[now.i], now.loc)) IN p # <<>> => p[1] \in DOMAIN FS /\ FS[p[1]].t # "link"
=============================================================================
