----------------------------- MODULE TtySession -----------------------------
(***************************************************************************)
(* Reads from a real terminal (C19): bytes arrive in bursts, are decoded   *)
(* into keys, the keys drive the editor; what follows the end of a line is *)
(* kept for the next read.                                                 *)
(*                                                                         *)
(* A session: ed (state of the editor), held (bytes of a character that    *)
(* has not arrived completely), keys (decoded, not yet taken), lines (what *)
(* the reads so far returned: [err, s]).                                   *)
(***************************************************************************)
EXTENDS Editor

Need(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
CodePoint(bs) ==
  IF Len(bs) = 1 THEN bs[1]
  ELSE FoldLeft(LAMBDA a, b: a * 64 + (b % 64),
                bs[1] % (IF Len(bs) = 2 THEN 32 ELSE IF Len(bs) = 3 THEN 16 ELSE 8), Tail(bs))

(* Bytes to characters; an incomplete one is held. *)
Utf8(bytes) ==
  FoldLeft(LAMBDA a, b:
             LET h == Append(a.held, b)
             IN IF Len(h) = Need(h[1]) THEN [held |-> <<>>, cps |-> Append(a.cps, CodePoint(h))]
                ELSE [a EXCEPT !.held = h],
           [held |-> <<>>, cps |-> <<>>], bytes)

(* Characters of one burst to keys: an ESC takes the rest with it. *)
BurstKeys(cs) ==
  FoldLeft(LAMBDA a, c: IF a # <<>> /\ a[Len(a)][1] = 27 THEN [a EXCEPT ![Len(a)] = Append(@, c)]
                        ELSE Append(a, <<c>>),
           <<>>, cs)

NewSession(E, C) == [ed |-> Start(E, Initial(C), <<>>, 0), held |-> <<>>, keys |-> <<>>, lines |-> <<>>]

Arrive(ses, chunk) ==
  LET u == Utf8(ses.held \o chunk)
  IN [ses EXCEPT !.held = u.held, !.keys = @ \o BurstKeys(u.cps)]

(* Take keys until the read ends, or there are no more. *)
RECURSIVE TakeKeys(_, _, _)
TakeKeys(E, C, ses) ==
  IF ses.ed.done # "" \/ ses.keys = <<>> THEN ses
  ELSE TakeKeys(E, C, [ses EXCEPT !.ed = Step(E, C, @, ses.keys[1]), !.keys = Tail(@)])

Result(ed) == IF ed.done = "ENTER" THEN Flat(ed.txt) ELSE <<>>

(* All reads that can end, do. *)
RECURSIVE Settle(_, _, _)
Settle(E, C, ses) ==
  LET n == TakeKeys(E, C, ses)
  IN IF n.ed.done = "" THEN n
     ELSE Settle(E, C, [n EXCEPT !.lines = Append(@, [err |-> n.ed.done, s |-> Result(n.ed)]), !.ed = Start(E, n.ed, <<>>, 0)])
=============================================================================
