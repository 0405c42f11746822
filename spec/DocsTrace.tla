------------------------------ MODULE DocsTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of a repository and its documentation      *)
(* builds (see docsite.py): edit n; commit n, day, at; tag p, v;           *)
(* build ps, after and script docs, dev -> raised, site, left, tree, head, *)
(* warns: the project whose text has a warning, of which nothing is built;  *)
(* again (projects or releases built more than once); copy p and prune p   *)
(* spoil an earlier result: "stable" is a directory, or leads nowhere.     *)
(***************************************************************************)
EXTENDS FluentDocs, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tc, upto, tree, warns, commit, tags, site, root, phase
vars == <<tc, upto, tree, warns, commit, tags, site, root, phase>>
Case == Cases[tc]
Op == Case.ops[upto + 1]
Init == tc \in 1..Len(Cases) /\ upto = 0 /\ tree = 0 /\ warns = "" /\ commit = <<>> /\ tags = {} /\ site = NoSite /\ root = <<>> /\ phase = "run"

FirstOfMay2020 == 737546
AllDocs == <<".", "fluent.syntax", "fluent.pygments", "fluent.runtime">>
Docs == IF Op.docs = <<>> THEN AllDocs ELSE Op.docs
Elements(s) == {s[i] : i \in 1..Len(s)}
Site2 == CASE Op.op = "build" -> Built(site, Elements(Op.ps), tags, Op.after, tree)
           [] Op.op = "script" -> Built(site, Elements(Docs) \ {"."}, tags, IF Op.dev THEN -1 ELSE FirstOfMay2020, tree)
           [] Op.op = "copy" -> IF Op.done THEN [site EXCEPT !.stable = Put(@, Op.p, "?")] ELSE site
           [] Op.op = "prune" -> IF Op.done THEN [site EXCEPT !.pages = [x \in DOMAIN @ \ {<<Op.p, site.stable[Op.p]>>} |-> @[x]]] ELSE site
           [] OTHER -> site
Url == "/" \o Case.repo
Static == <<"basic.css", "doctools.js", "documentation_options.js">>
RootPage == [src |-> tree, setup |-> tree, url |-> Url, static |-> Static, jekyll |-> FALSE]
Root2 == IF Op.op = "script" /\ "." \in Elements(Docs) THEN <<RootPage>>
         ELSE IF Op.op = "script" /\ root # <<>> THEN <<[root[1] EXCEPT !.jekyll = FALSE]>> ELSE root
Full(g) == [proj |-> g.proj, rel |-> g.rel, src |-> g.src, lib |-> g.lib, setup |-> g.setup, menu |-> g.menu, cur |-> g.cur, url |-> Url, static |-> <<"documentation_options.js">>]
PagesIn(s) == {[p |-> x[1], v |-> x[2], page |-> Full(s.pages[x])] : x \in DOMAIN s.pages}
Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}

(* Warnings are errors: of the dev text, or of a release's, of a project that is built. *)
Projects == IF Op.op = "build" THEN Elements(Op.ps) ELSE Elements(Docs) \ {"."}
After == IF Op.op = "build" THEN Op.after ELSE IF Op.dev THEN -1 ELSE FirstOfMay2020
Fails == \/ warns \in Projects
         \/ warns = "." /\ Op.op = "script" /\ "." \in Elements(Docs)
         \/ \E p \in Projects : \E t \in Released(tags, p, After) : t.warns = p

Why == IF Op.op \notin {"build", "script"} THEN (IF Op.op \in {"copy", "prune"} /\ Op.done # (Op.p \in DOMAIN site.stable /\ <<Op.p, site.stable[Op.p]>> \in DOMAIN site.pages) THEN "stable" ELSE "")
       ELSE IF Fails THEN (IF Op.raised = "" THEN "passed, although a text has a warning" ELSE IF Op.tree # tree \/ Op.head # commit.n THEN "the repository changed" ELSE "")
       ELSE IF Op.raised # "" THEN "raised " \o Op.raised
       ELSE IF Elements(Op.site.pages) # PagesIn(Site2) THEN "pages"
       ELSE IF Elements(Op.site.index) # Pairs(Site2.index) THEN "index"
       ELSE IF Elements(Op.site.stable) # Pairs(Site2.stable) THEN "stable"
       ELSE IF Op.op = "script" /\ Op.site.root # Root2 THEN "top-level documentation"
       ELSE IF Op.left # 0 THEN "a scratch checkout is left"
       ELSE IF Op.tree # tree \/ Op.head # commit.n THEN "the repository changed"
       ELSE IF Op.again # 0 THEN "built more than once"
       ELSE ""
Diff == LET w == PagesIn(Site2) g == Elements(Op.site.pages) IN [specified |-> w \ g, real |-> g \ w, index |-> Pairs(Site2.index), stable |-> Pairs(Site2.stable), root |-> Root2]
Step == /\ phase = "run" /\ upto < Len(Case.ops) /\ UNCHANGED tc
        /\ IF Why # "" THEN PrintT("MISMATCH " \o ToJson([case |-> tc, at |-> upto + 1, why |-> Why, want |-> Diff])) /\ phase' = "bad" /\ UNCHANGED <<upto, tree, warns, commit, tags, site, root>>
           ELSE /\ upto' = upto + 1 /\ UNCHANGED phase /\ site' = Site2 /\ root' = Root2
                /\ tree' = (IF Op.op \in {"edit", "commit"} THEN Op.n ELSE tree)
                /\ warns' = (IF Op.op \in {"edit", "commit"} THEN Op.warns ELSE warns)
                /\ commit' = (IF Op.op = "commit" THEN [n |-> Op.n, day |-> Op.day, at |-> Op.at, warns |-> Op.warns] ELSE commit)
                /\ tags' = (IF Op.op = "tag" THEN tags \cup {[p |-> Op.p, v |-> Op.v, day |-> commit.day, at |-> commit.at, n |-> commit.n, warns |-> commit.warns]} ELSE tags)
Finish == phase = "run" /\ upto = Len(Case.ops) /\ PrintT("DONE " \o ToString(tc)) /\ phase' = "done" /\ UNCHANGED <<tc, upto, tree, warns, commit, tags, site, root>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
