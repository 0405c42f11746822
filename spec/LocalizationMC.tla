--------------------------- MODULE LocalizationMC ---------------------------
(***************************************************************************)
(* All small localizations and sequences of requests, step by step: a      *)
(* request walks along the loaded bundles and loads further ones.          *)
(*   First:  an answer comes from the first set, in the order of locales   *)
(*           and sets, that has the message with a value; none only if no  *)
(*           set before a failing loader has it (C25)                      *)
(*   Lazy:   no more is loaded than some request needed (C26)              *)
(*   Order:  the loaded bundles are a prefix of the chain (C26)            *)
(* Histories are printed with the outcomes demanded and replayed.          *)
(***************************************************************************)
EXTENDS FluentLocalization, FluentNodes, FiniteSets, Json, IOUtils

Requests == CHOOSE k \in 1..5 : ToString(k) = IOEnv.SIZE
Every == CHOOSE k \in 0..200 : ToString(k) = IOEnv.EVERY
Wide == IOEnv.WIDE

Val(s) == <<Pat(1, <<Text(s)>>)>>
(* What a set has: resources by number. *)
Bodies == TLCEval(<<
  <<MessageNode("a", Val("A"), <<>>)>>,
  <<MessageNode("b", Val("B"), <<>>), TermNode("a", Val("T"), <<>>)>>,
  <<MessageNode("a", <<>>, <<AttrNode("x", Pat(3, <<Text("X")>>))>>)>>,
  <<MessageNode("b", <<Pat(1, <<Text("ab "), Plc(MsgRef("a"))>>)>>, <<>>)>> >>)
Sets == IF Wide = "yes" THEN {<<1>>, <<2>>, <<3>>, <<4>>, <<1, 4>>, <<2, 4>>, <<3, 1>>} ELSE {<<1>>, <<2>>, <<3, 1>>, <<3, 4>>}
Offers == [sets : {<<>>} \cup {<<s>> : s \in Sets} \cup {<<s, t>> : s, t \in Sets}, fails : {FALSE}] \cup [sets : {<<>>} \cup {<<s>> : s \in Sets}, fails : {TRUE}]
Ids == {T("a"), T("b"), T("c")}

VARIABLES offer, st, ptr, want, hist
vars == <<offer, st, ptr, want, hist>>
Offered == [l \in 1..Len(offer) |-> [fails |-> offer[l].fails, sets |-> [s \in 1..Len(offer[l].sets) |-> [i \in 1..Len(offer[l].sets[s]) |-> <<offer[l].sets[s][i], Bodies[offer[l].sets[s][i]]>>]]]]

Init == offer \in {<<o>> : o \in Offers} \cup {<<o, p>> : o, p \in Offers} /\ st = Fresh /\ ptr = 0 /\ want = <<>> /\ hist = <<>>
EntriesOf(f) == [x \in DOMAIN f |-> [gen |-> f[x].gen, node |-> Bodies[f[x].node[1]][f[x].node[2]]]]
TextOf(at) == IF at = 0 THEN want ELSE
  LET r == st.loaded[at].reg
      e == EntriesOf(r.msgs)[want]
      w == [iso |-> FALSE, funs |-> NoOpts, loc |-> English, dates |-> <<>>, msgs |-> EntriesOf(r.msgs), terms |-> EntriesOf(r.terms)]
  IN Format(w, e.gen, ValuePattern(e.node)[1], NoOpts).text
Entry(at, raised) == [id |-> want, at |-> at, text |-> TextOf(at), raised |-> raised, asked |-> st.asked, loaded |-> Len(st.loaded)]
Request == ptr = 0 /\ Len(hist) < Requests /\ (hist # <<>> => ~hist[Len(hist)].raised) /\ \E id \in Ids : want' = id /\ ptr' = 1 /\ UNCHANGED <<offer, st, hist>>
Walk == ptr > 0 /\ ptr <= Len(st.loaded) /\ ~Answers(Bodies, st, ptr, want) /\ ptr' = ptr + 1 /\ UNCHANGED <<offer, st, want, hist>>
Answer == ptr > 0 /\ ptr <= Len(st.loaded) /\ Answers(Bodies, st, ptr, want) /\ ptr' = 0 /\ hist' = Append(hist, Entry(ptr, FALSE)) /\ UNCHANGED <<offer, st, want>>
Load == LET r == LoadStep(Offered, st) IN
  /\ ptr > Len(st.loaded) /\ UNCHANGED <<offer, want>>
  /\ CASE r.what \in {"load", "ask"} -> st' = r.st /\ UNCHANGED <<ptr, hist>>
       [] r.what = "end" -> ptr' = 0 /\ hist' = Append(hist, Entry(0, FALSE)) /\ UNCHANGED st
       [] r.what = "raise" -> st' = r.st /\ ptr' = 0 /\ hist' = Append(hist, Entry(0, TRUE))
Out == [offer |-> offer, hist |-> hist']
Steps == Request \/ Walk \/ Answer \/ Load
Hash == FoldLeft(LAMBDA a, o : (a * 31 + 7 * Len(o.sets) + (IF o.fails THEN 3 ELSE 1) + FoldLeft(LAMBDA b, s : b * 5 + s[1] + 3 * Len(s), 1, o.sets)) % 100003, 1, offer)
        + FoldLeft(LAMBDA a, h : a * 3 + h.at + h.id[1], 1, hist')
Next == Steps /\ ((Every > 0 /\ hist' # hist /\ Len(hist') = Requests /\ Hash % Every = 0) => PrintT("OUT " \o ToJson(Out)))
Spec == Init /\ [][Next]_vars

(* The chain of all sets up to the first failing locale, by locale. *)
Upto == IF \E l \in 1..Len(offer) : offer[l].fails THEN CHOOSE l \in 1..Len(offer) : offer[l].fails /\ \A m \in 1..(l - 1) : ~offer[m].fails ELSE Len(offer)
Failing == Upto > 0 /\ offer[Upto].fails
Chain == FlattenSeq([l \in 1..Upto |-> [s \in 1..Len(offer[l].sets) |-> [loc |-> l, set |-> offer[l].sets[s]]]])
HasValue(set, id) == LET all == FlattenSeq([i \in 1..Len(set) |-> Bodies[set[i]]])
                         mine == SelectSeq(all, LAMBDA n : n.t = "Message" /\ Name(n) = id) IN mine # <<>> /\ ValuePattern(mine[1]) # <<>>
FirstWith(id) == LET ok == {i \in 1..Len(Chain) : HasValue(Chain[i].set, id)} IN IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
First == \A n \in 1..Len(hist) : hist[n].at = FirstWith(hist[n].id) /\ hist[n].raised = (hist[n].at = 0 /\ Failing)
Order == /\ Len(st.loaded) <= Len(Chain)
         /\ \A i \in 1..Len(st.loaded) : st.loaded[i].loc = Chain[i].loc
Needed(id) == IF FirstWith(id) = 0 THEN Len(Chain) ELSE FirstWith(id)
Lazy == ptr = 0 => LET most == IF hist = <<>> THEN 0 ELSE LET n == {Needed(hist[i].id) : i \in 1..Len(hist)} IN CHOOSE k \in n : \A j \in n : j <= k IN
  /\ Len(st.loaded) = most
  /\ st.asked > 0 /\ (\A i \in 1..Len(hist) : hist[i].at # 0) => st.asked = Chain[most].loc
=============================================================================
