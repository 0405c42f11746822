----------------------------- MODULE FluentDocs -----------------------------
(***************************************************************************)
(* The documentation build (C32).  The repository has a working tree and   *)
(* tags: [p: project, v: version, day, at: instant of the commit, n: what  *)
(* is in the tagged commit].  A site has                                   *)
(*   pages:  <<project, version>> -> a page [proj, rel, src, lib, setup,   *)
(*           menu, cur]: project and release it says it is of, from which  *)
(*           contents its text, its package and its style come, the        *)
(*           versions in its menu, and the one it says is shown            *)
(*   index:  project -> where its index page redirects to                  *)
(*   stable: project -> the version that "stable" is                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

NoSite == [pages |-> [x \in {} |-> 0], index |-> [x \in {} |-> 0], stable |-> [x \in {} |-> 0]]

(* The releases of project p after a day (none if after < 0), newest first. *)
Released(tags, p, after) == {t \in tags : t.p = p /\ after >= 0 /\ t.day > after}
NewestFirst(ts) == SetToSortSeq(ts, LAMBDA x, y : x.at > y.at)
Versions(tags, p, after) == LET r == NewestFirst(Released(tags, p, after)) IN [i \in 1..Len(r) |-> r[i].v]
MenuOf(vs) == <<"dev">> \o (IF vs = <<>> THEN <<>> ELSE <<"stable">> \o vs)

PageOf(p, v, vs, n, tree) == [proj |-> p, rel |-> IF v = "dev" THEN "" ELSE v, src |-> n, lib |-> n, setup |-> tree, menu |-> MenuOf(vs), cur |-> v]
Put(f, x, y) == (x :> y) @@ f

(* The whole build, of projects ps, with tree in the working tree. *)
Built(site, ps, tags, after, tree) ==
  LET vs == [p \in ps |-> Versions(tags, p, after)]
      rel == UNION {Released(tags, p, after) : p \in ps}
      has == {p \in ps : vs[p] # <<>>}
  IN [pages |-> [x \in ({<<p, "dev">> : p \in ps} \cup {<<t.p, t.v>> : t \in rel}) |->
                   PageOf(x[1], x[2], vs[x[1]], IF x[2] = "dev" THEN tree ELSE (CHOOSE t \in rel : t.p = x[1] /\ t.v = x[2]).n, tree)] @@ site.pages,
      index |-> [p \in ps |-> IF p \in has THEN "stable" ELSE "dev"] @@ site.index,
      stable |-> [p \in has |-> vs[p][1]] @@ site.stable]
=============================================================================
