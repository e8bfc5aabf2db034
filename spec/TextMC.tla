------------------------------- MODULE TextMC -------------------------------
(***************************************************************************)
(* All texts over the characters M.cps up to M.max, with calls M.ops that  *)
(* change the settings in between.                                         *)
(***************************************************************************)
EXTENDS Text

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)
E0 == EnvOf[M.env]

VARIABLES E, text, path, calls
vars == <<E, text, path, calls>>

Init == E = E0 /\ text = <<>> /\ path = <<>> /\ calls = 0

Type(n) ==
  /\ text' = Append(text, M.cps[n])
  /\ path' = Append(path, n)
  /\ UNCHANGED <<E, calls>>
Call(n) ==
  /\ calls < M.calls
  /\ E' = TextStep(E, M.ops[n])
  /\ path' = Append(path, Len(M.cps) + n)
  /\ calls' = calls + 1
  /\ UNCHANGED text

Next == \/ \E n \in 1..Len(M.cps) : Type(n)
        \/ \E n \in 1..Len(M.ops) : Call(n)

Bounded == Len(text) <= M.max
Spec == Init /\ [][Next]_vars
View == <<E, text>>
EmitPath == Bounded' => PrintT("PATH " \o ToJson(path'))

(* C07 *)
Cells == Segment(E, text)
NothingLost == Flat(Cells) = text /\ \A i \in 1..Len(Cells) : Cells[i] # <<>>
Adds == LET P == Positions(E, Cells)
        IN /\ Len(P) = Len(Cells) + 1
           /\ \A i \in 1..Len(Cells) : P[i + 1] = P[i] + CellWidth(E, Cells[i], P[i]) /\ P[i + 1] > P[i]
Shown == E.zw >= 0 => Len(LineCols(E, Cells, 0, Len(Cells))) = TextWidth(E, Cells)
(* A character split alone stays one character. *)
Atomic == \A i \in 1..Len(Cells) : Segment(E, Cells[i]) = <<Cells[i]>>
(* A typed character never reaches further back than the last character, *)
(* but for a joiner that waited for it.                                  *)
Local == [][text' # text =>
             LET old == Cells  new == Segment(E, text')  n == Len(old)
             IN \A i \in 1..(n - 2) : new[i] = old[i]]_vars
(* Settings that are taken back leave no trace. *)
Back == TextStep([E EXCEPT !.surr = E0.surr, !.zw = E0.zw], [op |-> "resetw"]) = E0
(* A width set for one character changes no character without it. *)
OneOnly == [][(text' = text /\ M.ops[path'[Len(path')] - Len(M.cps)].op = "setw") =>
               LET c == M.ops[path'[Len(path')] - Len(M.cps)].cp
               IN (\A i \in 1..Len(text) : text[i] # c) => Positions(E', Segment(E', text)) = Positions(E, Cells)]_vars
=============================================================================
