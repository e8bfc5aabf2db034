----------------------------- MODULE FileListMC -----------------------------
(* All trees that can be made of a few entries, and all of a few words. *)
EXTENDS FileList

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)

VARIABLES path      \* indexes in M.pool, increasing
vars == <<path>>
Tree == [k \in 1..Len(path) |-> M.pool[path[k]]]

Fits(e) == Has(Tree, Front(e.path)) /\ (e.kind = "ldir" => Has(Tree, e.to))

Init == path = <<>>
Next == \E n \in 1..Len(M.pool) : /\ \A k \in 1..Len(path) : path[k] < n
                                  /\ Fits(M.pool[n])
                                  /\ path' = Append(path, n)
Spec == Init /\ [][Next]_vars
EmitPath == PrintT("PATH " \o ToJson(path'))

Words == Range(M.words)
(* C13 *)
Spelled == \A w \in Words : \A c \in Candidates(Tree, w) :
  /\ SubSeq(c.full, 1, CutAt(w)) = DirPart(w)
  /\ PrefixFold(c.full, w)
  /\ SubSeq(c.full, Len(c.full) - Len(c.base) + 1, Len(c.full)) = c.base

(* Another description, for words without dots and links: the path texts
   of the tree that continue the word. *)
Text(p) == FoldLeft(LAMBDA a, n: IF a = <<>> THEN n ELSE a \o <<Slash>> \o n, <<>>, Tail(p))
Plain(w) == /\ \A c \in Range(SplitSlash(w)) : c \notin {Dot, DotDot, At}
            /\ ~\E k \in 1..(Len(w) - 1) : w[k] = Slash /\ w[k + 1] = Slash
            /\ (w # <<>> => w[1] # Slash)
Direct(w) == {k \in 1..Len(Tree) :
                /\ Len(Tree[k].path) > 1
                /\ LET x == Text(Tree[k].path)
                   IN /\ PrefixFold(x, w) /\ SubSeq(x, 1, CutAt(w)) = DirPart(w)
                      /\ ~\E m \in (CutAt(w) + 1)..Len(x) : x[m] = Slash}
NoLinks == \A k \in 1..Len(Tree) : Tree[k].kind \in {"file", "dir", "lfile", "lnone"}
Agrees == NoLinks => \A w \in Words : Plain(w) =>
  LET d == Direct(w) IN
  /\ {Text(Tree[k].path) \o (IF Tree[k].kind = "dir" THEN <<Slash>> ELSE <<>>) : k \in d} \subseteq {c.full : c \in Candidates(Tree, w)}
  /\ Cardinality(d) # 1 => Cardinality(Candidates(Tree, w)) = Cardinality(d)

(* A lone directory comes with what is in it. *)
NotClosed == NoLinks => \A w \in Words : LET c == Candidates(Tree, w) IN
  Cardinality(c) = 1 => LET f == (CHOOSE x \in c : TRUE).full
                        IN f[Len(f)] = Slash => Candidates(Tree, f) = {}
=============================================================================
