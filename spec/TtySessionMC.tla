---------------------------- MODULE TtySessionMC ----------------------------
(* All ways to cut a few texts into bursts. *)
EXTENDS TtySession

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)
C == M.cfg
E == EnvOf[C.env]

VARIABLES which,    \* index in M.texts
          sent,     \* number of bytes sent
          ses,
          path      \* which, then the lengths of the bursts
vars == <<which, sent, ses, path>>

Text == M.texts[which]
Init == /\ which \in 1..Len(M.texts)
        /\ sent = 0
        /\ ses = NewSession(E, C)
        /\ path = <<which>>
Next == \E n \in 1..M.burst :
  /\ sent + n <= Len(Text)
  /\ sent' = sent + n
  /\ ses' = Settle(E, C, Arrive(ses, SubSeq(Text, sent + 1, sent + n)))
  /\ path' = Append(path, n)
  /\ which' = which
Spec == Init /\ [][Next]_vars
View == <<which, sent, ses, IF M.all THEN path ELSE <<>>>>
EmitPath == sent' < Len(Text) \/ PrintT("PATH " \o ToJson(path'))

(* The lines of the bytes sent, whatever the bursts: the texts up to each
   Enter (the texts of the model have no other command). *)
Lines(bytes) ==
  FoldLeft(LAMBDA a, c: IF c = 13 THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                        ELSE [a EXCEPT !.cur = Append(@, c)],
           [done |-> <<>>, cur |-> <<>>], Utf8(bytes).cps)

(* C19 *)
AllLines == LET l == Lines(SubSeq(Text, 1, sent))
            IN /\ [k \in 1..Len(ses.lines) |-> ses.lines[k].s] = l.done
               /\ Flat(ses.ed.txt) = l.cur
               /\ \A k \in 1..Len(ses.lines) : ses.lines[k].err = "ENTER"
Reassembled == sent = Len(Text) => ses.held = <<>>
=============================================================================
