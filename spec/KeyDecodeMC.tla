----------------------------- MODULE KeyDecodeMC -----------------------------
(* All streams up to a length over a small alphabet; see KeyDecode. *)
EXTENDS KeyDecode, Json, IOUtils

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)

VARIABLES path      \* indexes in M.units ([u, more])
vars == <<path>>
Units == [k \in 1..Len(path) |-> [M.units[path[k]] EXCEPT !.more = @ /\ k < Len(path)]]

Init == path = <<>>
Next == \E n \in 1..Len(M.units) : Len(path) < M.max /\ path' = Append(path, n)
Spec == Init /\ [][Next]_vars
EmitPath == PrintT("PATH " \o ToJson(path'))

(* C10: the machine does what is asked of it, from every position. *)
Decodes == \A fn \in {"raw", "keys"} : \A p \in 1..Len(path) :
             LET r == Call(fn, Units, p)
             IN CallBad(fn, Units, p, r.to, IF r.err = "" THEN r.keys ELSE <<>>, r.err) = {}

(* The two descriptions of what belongs to a key agree. *)
SameKeys == \A p \in 1..Len(path) : KeysOf(Units, p, Len(path)) = KeysByDefinition(Units, p, Len(path))

(* Nothing is lost or reordered over all calls. *)
RECURSIVE All(_, _, _)
All(fn, p, acc) == IF p > Len(path) THEN acc
                   ELSE LET r == Call(fn, Units, p)
                        IN IF r.err # "" THEN acc \o FlattenSeq(r.keys) \o r.held
                           ELSE All(fn, r.to + 1, acc \o FlattenSeq(r.keys))
Lossless == (\A k \in 1..Len(path) : Units[k].u # -1) =>
              \A fn \in {"raw", "keys"} :
                LET c == Chars(Units).c IN All(fn, 1, <<>>) = [k \in 1..Len(c) |-> c[k].cp]
=============================================================================
