------------------------------ MODULE KeyDecode ------------------------------
(***************************************************************************)
(* Decoding of terminal input into keys (C10).                             *)
(*                                                                         *)
(* The terminal delivers units [u, more]: u is a code point, a UTF-16      *)
(* surrogate, 0, or -1 for a read error; more says that the next unit has  *)
(* already arrived with it (Buffered).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

ESC == 27
IsLead(u)  == u \in 55296..56319       \* D800..DBFF
IsTrail(u) == u \in 56320..57343       \* DC00..DFFF
IsSurr(u)  == IsLead(u) \/ IsTrail(u)
Pair(h, l) == IF IsLead(h) /\ IsTrail(l) THEN 65536 + (h - 55296) * 1024 + (l - 56320) ELSE 65533

(***************************************************************************)
(* What the units mean: the sequence of characters, each with the position *)
(* of its last unit.  NULs are nothing; a surrogate takes the next unit    *)
(* that is not a NUL with it.                                              *)
(***************************************************************************)
Chars(units) ==
  FoldLeft(LAMBDA a, k:
             LET u == units[k].u
             IN IF u <= 0 THEN a
                ELSE IF a.half # 0 THEN [half |-> 0, c |-> Append(a.c, [cp |-> Pair(a.half, u), at |-> k])]
                ELSE IF IsSurr(u) THEN [a EXCEPT !.half = u]
                ELSE [a EXCEPT !.c = Append(@, [cp |-> u, at |-> k])],
           [half |-> 0, c |-> <<>>], [k \in 1..Len(units) |-> k])

(* The units from p up to the end of the burst p is in. *)
BurstEnd(units, p) == CHOOSE q \in p..Len(units) : ~units[q].more /\ \A m \in p..(q - 1) : units[m].more

(***************************************************************************)
(* The keys of a stretch of units: a character each, but an ESC takes all  *)
(* that arrived with it.                                                   *)
(***************************************************************************)
KeysOf(units, from, to) ==
  LET seg == SubSeq(units, from, to)
      cs  == Chars(seg).c
  IN FoldLeft(LAMBDA a, k:
                LET c == cs[k]
                IN [keys |-> IF a.open THEN [a.keys EXCEPT ![Len(a.keys)] = Append(@, c.cp)] ELSE Append(a.keys, <<c.cp>>),
                    open |-> (a.open \/ c.cp = ESC) /\ seg[c.at].more],
              [keys |-> <<>>, open |-> FALSE], [k \in 1..Len(cs) |-> k]).keys

(* The same by definition: which characters belong to the key of an ESC. *)
KeysByDefinition(units, from, to) ==
  LET seg == SubSeq(units, from, to)
      cs  == Chars(seg).c
      join(k) == k > 1 /\ \E m \in 1..(k - 1) :     \* character k belongs to the key of an ESC before it
                    /\ cs[m].cp = ESC
                    /\ \A x \in m..(k - 1) :          \* its units were there when the key could have ended
                          seg[cs[x].at].more
      \* all units between must have been there as well
  IN FoldLeft(LAMBDA a, k: IF join(k) THEN [a EXCEPT ![Len(a)] = Append(@, cs[k].cp)]
                           ELSE Append(a, <<cs[k].cp>>),
              <<>>, [k \in 1..Len(cs) |-> k])

(***************************************************************************)
(* The decoder as a machine: reads unit p (1-based); st is what it holds.  *)
(* fn is "raw" (GetRawKey), "key" (GetKey) or "keys" (GetKeys).            *)
(* Result: [to, keys, err, waits]; to is the last unit consumed; waits     *)
(* counts the reads done when nothing had arrived although a key was       *)
(* complete.                                                               *)
(***************************************************************************)
RECURSIVE Run(_, _, _, _)
Run(fn, units, p, st) ==
  IF p > Len(units) THEN [to |-> p - 1, keys |-> st.keys, err |-> "end", held |-> st.buf]
  ELSE
  LET x == units[p]
      u == x.u
      full == [st EXCEPT !.keys = IF st.buf = <<>> THEN @ ELSE Append(@, st.buf), !.buf = <<>>, !.esc = FALSE]
      chr == IF st.half # 0 THEN Pair(st.half, u) ELSE u
      more == [st EXCEPT !.half = 0, !.buf = Append(@, chr), !.esc = @ \/ chr = ESC]
      fin(s2) ==                                     \* a key is complete
        LET k == Append(s2.keys, s2.buf)
        IN IF fn = "keys" /\ x.more THEN Run(fn, units, p + 1, [s2 EXCEPT !.keys = k, !.buf = <<>>, !.esc = FALSE])
           ELSE [to |-> p, keys |-> k, err |-> "", held |-> <<>>]
  IN IF u = -1 THEN [to |-> p, keys |-> <<>>, err |-> "err", held |-> <<>>]
     ELSE IF u = 0 THEN
       IF st.half = 0 /\ ~x.more /\ (st.buf # <<>> \/ st.keys # <<>>)
       THEN [to |-> p, keys |-> full.keys, err |-> "", held |-> <<>>]
       ELSE Run(fn, units, p + 1, st)
     ELSE IF st.half = 0 /\ IsSurr(u) THEN Run(fn, units, p + 1, [st EXCEPT !.half = u])
     ELSE IF more.esc /\ x.more THEN Run(fn, units, p + 1, more)
     ELSE fin(more)

Fresh == [keys |-> <<>>, buf |-> <<>>, esc |-> FALSE, half |-> 0]
Call(fn, units, p) == Run(fn, units, p, Fresh)

(***************************************************************************)
(* What a call that consumed units from..to has to satisfy.  keys and err  *)
(* are its results ("end": it read past what was sent).                    *)
(***************************************************************************)
Complete(units, from, p) ==       \* something deliverable is held before reading unit p
  LET c == Chars(SubSeq(units, from, p - 1))
  IN c.c # <<>> /\ c.half = 0

CallBad(fn, units, from, to, keys, err) ==
  UNION {
    IF err = "" /\ keys # KeysOf(units, from, to) THEN {"keys"} ELSE {},
    IF err = "" /\ keys = <<>> THEN {"no-key"} ELSE {},
    IF err = "" /\ fn # "keys" /\ Len(keys) # 1 THEN {"one-key"} ELSE {},
    IF err = "" /\ Chars(SubSeq(units, from, to)).half # 0 THEN {"half"} ELSE {},
    IF err = "" /\ \E k \in from..to : units[k].u = -1 THEN {"error-unreported"} ELSE {},
    IF err = "err" /\ (to < from \/ units[to].u # -1) THEN {"error-invented"} ELSE {},
    IF err # "" /\ keys # <<>> THEN {"keys-and-error"} ELSE {},
    \* waiting although something is complete
    IF \E p \in (from + 1)..(to + 1) : p - 1 <= Len(units) /\ ~units[p - 1].more /\ Complete(units, from, p)
                                        /\ (p <= to \/ err = "end")
    THEN {"waits"} ELSE {},
    \* GetKeys leaves nothing that has arrived
    IF fn = "keys" /\ err = "" /\ to \in DOMAIN units /\ units[to].more THEN {"left"} ELSE {} }
=============================================================================
