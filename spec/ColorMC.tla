------------------------------- MODULE ColorMC -------------------------------
EXTENDS Color, Json, IOUtils

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)

VARIABLES regs, path
vars == <<regs, path>>

Init == regs = <<<<>>, <<>>>> /\ path = <<>>

Next == \E n \in 1..Len(M.ops) :
  /\ regs' = ColorStep(regs, M.ops[n])
  /\ path' = Append(path, n)

Bounded == /\ Len(regs[1]) <= M.max /\ Len(regs[2]) <= M.max
           /\ Len(regs[1]) + Len(regs[2]) <= M.total
Spec == Init /\ [][Next]_vars
View == regs
EmitPath == Bounded' => PrintT("PATH " \o ToJson(path'))

(* C21 *)
RoundTrip == \A r \in 1..2 : LET b == Parse(Render(regs[r])) IN b.ok /\ b.p = regs[r]
Written == \A r \in 1..2 : Render(regs[r]) = <<>> <=> regs[r] = <<>>
Grows == [][\A r \in 1..2 : LET o == M.ops[path'[Len(path')]]
                           IN /\ r # o.r => regs'[r] = regs[r]
                              /\ o.op \in {"add", "chain"} => SubSeq(regs'[r], 1, Len(regs[r])) = regs[r]]_vars
=============================================================================
