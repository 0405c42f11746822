------------------------------- MODULE DocsMC -------------------------------
(***************************************************************************)
(* All short histories of edits, commits, releases and documentation       *)
(* builds; a build is many steps: each project from the working tree, then *)
(* each release from a scratch checkout, at which tag it is then, then     *)
(* "stable" is linked.                                                     *)
(*   OneBuild:  the steps come to what Built says                          *)
(*   Faithful:  every page made by the last build is from its own release, *)
(*              in the current style; nothing else has changed             *)
(*   NoDeadEnd: menus, index and "stable" lead to pages                    *)
(*   Newest:    "stable" is the newest release                             *)
(*   Tidy:      no scratch checkout is left                                *)
(* Histories are printed and replayed.                                     *)
(***************************************************************************)
EXTENDS FluentDocs, FiniteSets, Json, IOUtils

Every == CHOOSE k \in 0..500 : ToString(k) = IOEnv.EVERY
MaxOps == CHOOSE k \in 1..9 : ToString(k) = IOEnv.SIZE
MaxBuilds == 2

Projects == {"fluent.syntax", "fluent.runtime"}
Names == <<"0.1", "0.2", "0.3", "1.0">>

VARIABLES tree, commit, tags, site, job, scratch, last, hist
vars == <<tree, commit, tags, site, job, scratch, last, hist>>
Idle == job = <<>>
Init == /\ tree = 1 /\ commit = [n |-> 1, day |-> 1, at |-> 10] /\ tags = {} /\ site = NoSite /\ job = <<>> /\ scratch = 0 /\ hist = <<>>
        /\ last = [site |-> NoSite, before |-> NoSite, ps |-> {}, after |-> -1, tags |-> {}, tree |-> 0]
Room == Idle /\ Len(hist) < MaxOps
Did(o) == hist' = Append(hist, o)

Edit == /\ Room /\ tree = commit.n /\ tree' = tree + 1 /\ Did([op |-> "edit", n |-> tree + 1]) /\ UNCHANGED <<commit, tags, site, job, scratch, last>>
Commit == /\ Room /\ \E days \in {0, 1} :
               LET n == IF tree = commit.n THEN tree + 1 ELSE tree IN
               /\ tree' = n /\ commit' = [n |-> n, day |-> commit.day + days, at |-> commit.at + 10]
               /\ Did([op |-> "commit", n |-> n, day |-> commit'.day, at |-> commit'.at])
          /\ UNCHANGED <<tags, site, job, scratch, last>>
Tag == /\ Room /\ \E p \in Projects :
            /\ ~\E t \in tags : t.p = p /\ t.at = commit.at
            /\ LET v == Names[Cardinality({t \in tags : t.p = p}) + 1]
                   t == [p |-> p, v |-> v, day |-> commit.day, at |-> commit.at, n |-> commit.n]
               IN tags' = tags \cup {t} /\ Did([op |-> "tag", p |-> p, v |-> v])
       /\ UNCHANGED <<tree, commit, site, job, scratch, last>>
NrBuilds == Cardinality({i \in 1..Len(hist) : hist[i].op = "build"})
StartBuild == /\ Room /\ NrBuilds < MaxBuilds
              /\ \E ps \in SUBSET Projects \ {{}}, after \in {-1, 0, 1} :
                   /\ after <= commit.day
                   /\ last' = [site |-> Built(site, ps, tags, after, tree), before |-> site, ps |-> ps, after |-> after, tags |-> tags, tree |-> tree]
                   /\ job' = [i \in 1..Cardinality(ps) |-> [do |-> "dev", p |-> SetToSeq(ps)[i]]]
                             \o (LET r == NewestFirst(UNION {Released(tags, p, after) : p \in ps}) IN
                                 [i \in 1..(2 * Len(r)) |-> IF i % 2 = 1 THEN [do |-> "checkout", t |-> r[(i + 1) \div 2]] ELSE [do |-> "release", t |-> r[i \div 2]]])
                             \o <<[do |-> "remove"]>>
                             \o [i \in 1..Cardinality(ps) |-> [do |-> "link", p |-> SetToSeq(ps)[i]]]
                   /\ Did([op |-> "build", ps |-> ps, after |-> after])
              /\ UNCHANGED <<tree, commit, tags, site, scratch>>
Vs(p) == Versions(tags, p, last.after)
Work == /\ ~Idle /\ job' = Tail(job) /\ UNCHANGED <<tree, commit, tags, last, hist>>
        /\ LET j == Head(job) IN
           CASE j.do = "dev" -> /\ site' = [site EXCEPT !.pages = Put(@, <<j.p, "dev">>, PageOf(j.p, "dev", Vs(j.p), tree, tree)),
                                                        !.index = Put(@, j.p, IF Vs(j.p) = <<>> THEN "dev" ELSE "stable")] /\ UNCHANGED scratch
             [] j.do = "checkout" -> scratch' = j.t.n /\ UNCHANGED site
             [] j.do = "release" -> site' = [site EXCEPT !.pages = Put(@, <<j.t.p, j.t.v>>, PageOf(j.t.p, j.t.v, Vs(j.t.p), scratch, tree))] /\ UNCHANGED scratch
             [] j.do = "remove" -> scratch' = 0 /\ UNCHANGED site
             [] j.do = "link" -> /\ site' = (IF Vs(j.p) = <<>> THEN site ELSE [site EXCEPT !.stable = Put(@, j.p, Vs(j.p)[1])]) /\ UNCHANGED scratch
Listed(s) == [pages |-> {[p |-> x[1], v |-> x[2], page |-> s.pages[x]] : x \in DOMAIN s.pages}, index |-> s.index, stable |-> s.stable]
Hash == FoldLeft(LAMBDA a, o : (a * 31 + Len(o.op) + (IF o.op = "build" THEN o.after + 5 * Cardinality(o.ps) + (IF "fluent.syntax" \in o.ps THEN 3 ELSE 0) ELSE IF o.op = "tag" THEN Len(o.p) ELSE o.n)) % 10007, 0, hist)
Done == /\ ~Idle /\ Len(job) = 1 /\ Len(hist) = MaxOps /\ Every > 0 /\ Hash % Every = 0
        => PrintT("OUT " \o ToJson([hist |-> hist, site |-> Listed(site')]))
Next == Edit \/ Commit \/ Tag \/ StartBuild \/ (Work /\ Done)
Spec == Init /\ [][Next]_vars

OneBuild == Idle => site = last.site
Made == {<<p, "dev">> : p \in last.ps} \cup {<<t.p, t.v>> : t \in UNION {Released(last.tags, p, last.after) : p \in last.ps}}
Faithful == Idle =>
  /\ \A x \in Made : LET g == site.pages[x] IN
       /\ g.proj = x[1] /\ g.cur = x[2] /\ g.setup = last.tree /\ g.src = g.lib
       /\ IF x[2] = "dev" THEN g.src = last.tree /\ g.rel = "" ELSE g.rel = x[2] /\ \E t \in last.tags : t.p = x[1] /\ t.v = x[2] /\ t.n = g.src
  /\ \A x \in DOMAIN site.pages \ Made : x \in DOMAIN last.before.pages /\ site.pages[x] = last.before.pages[x]
  /\ DOMAIN last.before.pages \subseteq DOMAIN site.pages
NoDeadEnd == Idle =>
  /\ \A p \in DOMAIN site.index : IF site.index[p] = "stable" THEN p \in DOMAIN site.stable ELSE <<p, site.index[p]>> \in DOMAIN site.pages
  /\ \A p \in DOMAIN site.stable : <<p, site.stable[p]>> \in DOMAIN site.pages
  /\ \A x \in DOMAIN site.pages : \A i \in 1..Len(site.pages[x].menu) :
       LET v == site.pages[x].menu[i] IN IF v = "stable" THEN x[1] \in DOMAIN site.stable ELSE <<x[1], v>> \in DOMAIN site.pages
Newest == Idle => \A p \in last.ps :
  LET r == Released(last.tags, p, last.after) IN
  IF r = {} THEN site.index[p] = "dev" /\ (p \in DOMAIN site.stable) = (p \in DOMAIN last.before.stable)
  ELSE site.index[p] = "stable" /\ \A t \in r : (t.v = site.stable[p]) = (\A u \in r : u.at <= t.at)
Tidy == Idle => scratch = 0
=============================================================================
