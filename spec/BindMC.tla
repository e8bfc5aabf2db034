------------------------------- MODULE BindMC -------------------------------
(* All sequences of a few operations on the three maps; see Bind. *)
EXTENDS Bind, Json, IOUtils

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)

VARIABLES st, path
vars == <<st, path>>

Init == st = Start /\ path = <<>>
Next == \E n \in 1..Len(M.ops) : /\ st' = BindStep(st, M.ops[n]).s
                                 /\ path' = Append(path, n)
Spec == Init /\ [][Next]_vars
View == st
Bounded == Len(path) <= M.max
EmitPath == PrintT("PATH " \o ToJson(path'))

(* C11 *)
Op == M.ops[path'[Len(path')]]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
Changed == {<<m, k>> \in (1..3) \X UNION {DOMAIN st[m2] \cup DOMAIN st'[m2] : m2 \in 1..3} : At(st[m], k) # At(st'[m], k)}
OneKeyOnly == [][/\ Cardinality(Changed) <= 1
                 /\ \A c \in Changed : c[1] = Op.m
                 /\ BindStep(st, Op).err => Changed = {}]_vars
OwnFirst == \A m \in 1..2 : \A k \in DOMAIN st[m] : Look(st, m, k) = st[m][k]
Apart == [][\A m \in 1..2 : Op.m \in {1, 2} \ {m} => \A k \in UNION {DOMAIN st[x] : x \in 1..3} : Look(st, m, k) = Look(st', m, k)]_vars
NamesReachKeys == path = <<>> =>
  /\ Cardinality({p[1] : p \in Range(KeyList)}) = Len(KeyList)
  /\ \A p, q \in Range(KeyList) : (p[2] = q[2] /\ p # q) =>
        {p[1], q[1]} \in {{"CTRL_BREAK", "C_C"}, {"ENTER", "C_M"}, {"ESCAPE", "C_["}}
  /\ \A p \in Range(KeyList) : Norm(Bytes(p[1])) = Bytes(p[1])
=============================================================================
