---------------------------- MODULE FileListTrace ----------------------------
(***************************************************************************)
(* Judges recorded calls of File.List: the first event logs the tree, the  *)
(* others a word, the list of full names and that of base names.           *)
(***************************************************************************)
EXTENDS FileList

If(c, what) == IF c THEN {<<"C13", what>>} ELSE {}

FBegin(tr) == 0
FJudge(tr, st, e) ==
  LET tree == tr.ev[1].tree
      want == Candidates(tree, e.word)
      got == {[full |-> e.full[k], base |-> e.base[k]] : k \in 1..Len(e.full)}
  IN [s |-> 0,
      bad |-> IF e.k = "tree" THEN {}
              ELSE IF e.k = "none" THEN If(e.full # <<>> \/ e.base # <<>>, "no-field")
              ELSE IF Len(e.full) # Len(e.base) THEN If(TRUE, "lists-differ")
              ELSE UNION {If(want \ got # {}, "missing"), If(got \ want # {}, "extra"), If(Cardinality(got) # Len(e.full), "twice")}]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- FBegin, Judge <- FJudge
=============================================================================
