------------------------------ MODULE FileList ------------------------------
(***************************************************************************)
(* File name completion (C13).                                             *)
(*                                                                         *)
(* A tree is a sequence of entries [path, kind, to]: path is a sequence of *)
(* names (sequences of code points) from the root of the scratch area,     *)
(* kind is "file", "dir", "nodir" (a directory that cannot be read),       *)
(* "ldir", "lfile" or "lnone" (links to a directory, to a file, to         *)
(* nothing), to is the path an "ldir" leads to.  The process is in the     *)
(* directory Cwd.  A word that begins with @ is an absolute path below the *)
(* root (the harness puts the real path there).                            *)
(***************************************************************************)
EXTENDS Moji

Slash == 47
Dot == <<46>>
DotDot == <<46, 46>>
At == <<64>>
Cwd == << <<116>> >>                    \* the directory t
FE == EnvOf["plain"]

Has(tree, p) == p \in {<<>>, Cwd} \/ \E k \in 1..Len(tree) : tree[k].path = p
KindAt(tree, p) == IF p \in {<<>>, Cwd} THEN "dir" ELSE tree[CHOOSE k \in 1..Len(tree) : tree[k].path = p].kind
NamesIn(tree, p) == {tree[k].path[Len(tree[k].path)] : k \in {k \in 1..Len(tree) : Front(tree[k].path) = p}}
                    \cup (IF p = <<>> THEN {Cwd[1]} ELSE {})

IsDirKind(k) == k \in {"dir", "nodir", "ldir"}

(* Where a link leads (links lead to what is not a link). *)
Follow(tree, p) ==
  IF p \in {<<>>, Cwd} THEN p
  ELSE LET e == tree[CHOOSE k \in 1..Len(tree) : tree[k].path = p]
       IN IF e.kind = "ldir" THEN e.to ELSE p

(* The directory the components lead to from where; ok is FALSE when there *)
(* is none that can be read.                                               *)
Walk(tree, where, comps) ==
  FoldLeft(LAMBDA a, c:
             IF ~a.ok THEN a
             ELSE IF KindAt(tree, a.p) = "nodir" /\ c # <<>> THEN [a EXCEPT !.ok = FALSE]
             ELSE IF c = <<>> \/ c = Dot THEN a
             ELSE IF c = DotDot THEN IF a.p = <<>> THEN [a EXCEPT !.ok = FALSE] ELSE [a EXCEPT !.p = Front(@)]
             ELSE IF c \in NamesIn(tree, a.p) /\ IsDirKind(KindAt(tree, Append(a.p, c)))
             THEN [a EXCEPT !.p = Follow(tree, Append(@, c))]
             ELSE [a EXCEPT !.ok = FALSE],
           [ok |-> TRUE, p |-> where], comps)

SplitSlash(w) == FoldLeft(LAMBDA a, c: IF c = Slash THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], << <<>> >>, w)

SameFold(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Info(FE, a[k]).fold = Info(FE, b[k]).fold
PrefixFold(name, base) == Len(base) <= Len(name) /\ SameFold(SubSeq(name, 1, Len(base)), base)

(* The part of the word up to its last slash, and the rest. *)
CutAt(w) == LET ks == {k \in 1..Len(w) : w[k] = Slash} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A m \in ks : m <= k
DirPart(w) == SubSeq(w, 1, CutAt(w))
BasePart(w) == SubSeq(w, CutAt(w) + 1, Len(w))

(* The directory a word's directory part names. *)
DirOf(tree, w) ==
  LET comps == Front(SplitSlash(w))
      abs == comps # <<>> /\ comps[1] = At
  IN Walk(tree, IF abs THEN <<>> ELSE Cwd, IF abs THEN Tail(comps) ELSE comps)

(* Entries of the directory at p that begin with base, spelled with prefix. *)
Entries(tree, p, prefix, base) ==
  {LET sep == IF IsDirKind(KindAt(tree, Append(p, n))) THEN <<Slash>> ELSE <<>>
   IN [full |-> prefix \o n \o sep, base |-> n \o sep, at |-> Append(p, n)]
   : n \in {n \in NamesIn(tree, p) : PrefixFold(n, base)}}

(***************************************************************************)
(* The candidates for a word: a set of [full, base].                       *)
(***************************************************************************)
Candidates(tree, w) ==
  LET d == DirOf(tree, w)
      first == IF d.ok /\ KindAt(tree, d.p) # "nodir" THEN Entries(tree, d.p, DirPart(w), BasePart(w)) ELSE {}
      only == CHOOSE e \in first : TRUE
      more == IF Cardinality(first) = 1 /\ IsDirKind(KindAt(tree, only.at))
              THEN LET q == Follow(tree, only.at)
                   IN IF KindAt(tree, q) = "nodir" THEN {} ELSE Entries(tree, q, only.full, <<>>)
              ELSE {}
  IN {[full |-> e.full, base |-> e.base] : e \in first \cup more}
=============================================================================
