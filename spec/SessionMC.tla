----------------------------- MODULE SessionMC ------------------------------
(* All short programs that set fields, let the editor fill in the others   *)
(* and read; see Session.                                                  *)
EXTENDS Session

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)
E == EnvOf["plain"]

VARIABLES s, path
vars == <<s, path>>
Op == M.ops[path'[Len(path')]]

(* M.first: what the program has done before. *)
Init == s = FoldLeft(LAMBDA a, o: SessionStep(E, a, o), Fresh, M.first) /\ path = <<>>
Next == \E n \in 1..Len(M.ops) : /\ CanDo(s, M.ops[n])
                                 /\ s' = SessionStep(E, s, M.ops[n])
                                 /\ path' = Append(path, n)
Spec == Init /\ [][Next]_vars
View == s
Bounded == Len(path) <= M.max /\ Len(s.q) <= M.maxq /\ Len(s.hs) <= 3
EmitPath == PrintT("PATH " \o ToJson(path'))

Fields == {"w", "out", "hist", "pred", "color", "tty"}
Settings == {"lf", "pr", "cyc", "def"}
Uses   == {"init", "read"}

(* C20: defaults are given once, what the program set is kept. *)
Keeps == [][\A f \in Fields : Op.op \in Uses => s'[f] # "nil" /\ (s[f] # "nil" => s'[f] = s[f])]_vars
Once  == [][(Op.op \in Uses /\ \A f \in Fields : s[f] # "nil") => s' = [s EXCEPT !.q = s'.q, !.cur = s'.cur]]_vars
OneField == [][Op.op \in Fields => \A f \in Fields \ {Op.op} : s'[f] = s[f]]_vars
(* C20: a read changes none of the settings, and starts with the default line again. *)
SettingsStay == [][\A f \in Settings : Op.op # f => s'[f] = s[f]]_vars
(* C20: the output stays where it was directed. *)
SameOutput == [][(Op.op # "out" /\ s.out # "nil") => s'.out = s.out /\ s'.to = s.to]_vars
Directed == s.out # "nil" => s.to \in {"A", "B", "std"}
(* C20: keys are taken in order, only by reads, and a read ends without any. *)
InOrder == [][/\ (Op.op = "read") => \E k \in 0..Len(s.q) : s'.q = SubSeq(s.q, k + 1, Len(s.q))
              /\ (Op.op \notin {"read", "keys"}) => s'.q = s.q
              /\ (Op.op = "read" /\ s.q = <<>>) => ReadAll(E, Filled(s)).line = s.def]_vars
=============================================================================
