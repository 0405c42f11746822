---------------------------- MODULE FluentLoader ----------------------------
(***************************************************************************)
(* The file loader (C27): which files of a file system the resources for a *)
(* locale come from.                                                       *)
(*                                                                         *)
(* A file system is a function from paths (sequences of names, names are   *)
(* texts) to nodes: [t: "file", b: bytes], [t: "dir"], [t: "link", to:     *)
(* text of the target].  The root directory is <<>>; cwd is a path.        *)
(***************************************************************************)
EXTENDS FluentText, TLC


(* ---- texts of paths ---- *)
Holder == T("{locale}")
RECURSIVE Localize(_, _)
Localize(s, loc) == IF s = <<>> THEN <<>>
  ELSE IF Len(s) >= Len(Holder) /\ SubSeq(s, 1, Len(Holder)) = Holder THEN loc \o Localize(SubSeq(s, Len(Holder) + 1, Len(s)), loc)
  ELSE <<Head(s)>> \o Localize(Tail(s), loc)
JoinPath(root, id) == IF id # <<>> /\ id[1] = SLASH THEN id
  ELSE IF root = <<>> \/ root[Len(root)] = SLASH THEN root \o id ELSE root \o <<SLASH>> \o id

(* The names in a path text; "." stands for a trailing slash. *)
RECURSIVE Names(_, _)
Names(s, acc) == IF s = <<>> THEN IF acc = <<>> THEN <<T(".")>> ELSE <<acc>>
  ELSE IF Head(s) = SLASH THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>) \o Names(Tail(s), <<>>)
  ELSE Names(Tail(s), Append(acc, Head(s)))

(* ---- looking a path up: <<path>> of the node reached, or <<>> ---- *)
IsDir(fs, p) == p = <<>> \/ (p \in DOMAIN fs /\ fs[p].t = "dir")
RECURSIVE Walk(_, _, _, _)
Walk(fs, at, names, links) ==
  IF names = <<>> THEN <<at>>
  ELSE IF ~IsDir(fs, at) THEN <<>>
  ELSE IF Head(names) = T(".") THEN Walk(fs, at, Tail(names), links)
  ELSE IF Head(names) = T("..") THEN Walk(fs, IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1), Tail(names), links)
  ELSE LET p == Append(at, Head(names)) IN
       IF p \notin DOMAIN fs THEN <<>>
       ELSE IF fs[p].t # "link" THEN Walk(fs, p, Tail(names), links)
       ELSE IF links = 0 THEN <<>>
       ELSE LET to == fs[p].to IN Walk(fs, IF to[1] = SLASH THEN <<>> ELSE at, Names(to, <<>>) \o Tail(names), links - 1)
LookUp(fs, cwd, text) == IF text = <<>> THEN <<>> ELSE Walk(fs, IF text[1] = SLASH THEN <<>> ELSE cwd, Names(text, <<>>), 40)
(* The file at a path text: <<bytes>> or <<>>. *)
FileAt(fs, cwd, text) == LET p == LookUp(fs, cwd, text) IN IF p # <<>> /\ p[1] \in DOMAIN fs /\ fs[p[1]].t = "file" THEN <<fs[p[1]].b>> ELSE <<>>

(* ---- UTF-8: <<text>>, or <<>> if it isn't ---- *)
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
RECURSIVE Utf8(_, _, _)
Utf8(b, i, acc) ==
  IF i > Len(b) THEN <<acc>>
  ELSE LET x == b[i] IN
    CASE x < 128 -> Utf8(b, i + 1, Append(acc, x))
      [] x >= 194 /\ x < 224 /\ Cont(b, i + 1) -> Utf8(b, i + 2, Append(acc, (x - 192) * 64 + b[i + 1] - 128))
      [] x >= 224 /\ x < 240 /\ Cont(b, i + 1) /\ Cont(b, i + 2) ->
           LET c == (x - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128 IN
           IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN <<>> ELSE Utf8(b, i + 3, Append(acc, c))
      [] x >= 240 /\ x < 245 /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3) ->
           LET c == (x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128 IN
           IF c < 65536 \/ c > 1114111 THEN <<>> ELSE Utf8(b, i + 4, Append(acc, c))
      [] OTHER -> <<>>

(* ---- what the loader yields ---- *)
(* For a root: the texts of the files there are, each <<text>> or <<>>.    *)
PathOf(root, id, loc) == Localize(JoinPath(root, id), loc)
FoundIn(fs, cwd, root, loc, ids) ==
  LET at == [i \in 1..Len(ids) |-> FileAt(fs, cwd, PathOf(root, ids[i], loc))]
      there == SelectSeq([i \in 1..Len(ids) |-> i], LAMBDA i : at[i] # <<>>)
  IN [k \in 1..Len(there) |-> Utf8(at[there[k]][1], 1, <<>>)]
(* For all roots: the sets, up to the first file that can't be read.       *)
Yields(fs, cwd, roots, loc, ids) ==
  LET all == [r \in 1..Len(roots) |-> FoundIn(fs, cwd, roots[r], loc, ids)]
      some == SelectSeq(all, LAMBDA s : s # <<>>)
      bad == {r \in 1..Len(some) : \E i \in 1..Len(some[r]) : some[r][i] = <<>>}
      n == IF bad = {} THEN Len(some) ELSE (CHOOSE r \in bad : \A q \in bad : r <= q) - 1
  IN [sets |-> [r \in 1..n |-> [i \in 1..Len(some[r]) |-> some[r][i][1]]], fails |-> bad # {}]
=============================================================================
