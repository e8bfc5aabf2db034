-------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Commands of a program that uses the library: a command bound to a key   *)
(* may call the functions of the buffer.  A call is a record [op, p, n, s]:*)
(* places p and n (cut to the line, as by the driver) and a text s.        *)
(*                                                                         *)
(* CallStep(E, C, a, c) is the effect of one call: a.s the state of the    *)
(* editor, a.fresh whether the line has been drawn since its last change   *)
(* (until then the columns of its tabs are not up to date), a.drawn the    *)
(* same within this command (only then is the suggestion: a command like   *)
(* one that deletes to the end need not look for a new one), a.said        *)
(* whether the prompt has been drawn anew, a.rets the answers so far:      *)
(* numbers r, a text t, and whether they are known.                        *)
(***************************************************************************)
EXTENDS Screen

NoTab(cells) == \A i \in 1..Len(cells) : cells[i] # <<9>>
CutCur(s) == [s EXCEPT !.cur = Min2(@, Len(s.txt))]

Draws   == {"rep", "insr", "after", "head", "last", "say"}
Changes == {"ins", "del", "cur", "cmd", "view"}

CallStep(E, C, a, c) ==
  LET plain == c.op \in {"ins", "del", "sub", "wid", "cur", "str", "vw", "none"}
      s  == IF plain THEN a.s ELSE CutCur(a.s)
      t  == s.txt
      n  == Len(t)
      p  == Min2(c.p, n)
      q  == IF c.n < p THEN p ELSE Min2(c.n, n)
      P  == Positions(E, t)
      known == CASE c.op = "suf" -> a.drawn
                 [] c.op = "vw"  -> ~a.said
                 [] OTHER        -> a.fresh \/ NoTab(t)
      answer(x, fresh, r, u) ==
        [s |-> x, fresh |-> fresh,
         drawn |-> c.op \in Draws \/ (a.drawn /\ c.op \notin Changes), said |-> a.said \/ c.op = "say", vw |-> a.vw,
         rets |-> Append(a.rets, [r |-> r, t |-> u, known |-> known])]
      say(r, u) == answer(s, a.fresh, r, u)
  IN CASE c.op = "ins"  -> LET x == Segment(E, c.s)
                           IN answer([Edit(s, p, p, x) EXCEPT !.cur = s.cur], FALSE, <<Len(x)>>, <<>>)
       [] c.op = "del"  -> IF c.n <= 0 \/ p + c.n > n THEN say(<<0>>, <<>>)
                           ELSE answer([Edit(s, p, p + c.n, <<>>) EXCEPT !.cur = s.cur], FALSE,
                                       <<P[p + c.n + 1] - P[p + 1]>>, <<>>)
       [] c.op = "rep"  -> answer(Edit(s, Min2(p, s.cur), s.cur, Segment(E, c.s)), TRUE, <<>>, <<>>)
       [] c.op = "insr" -> answer(Edit(s, s.cur, s.cur, Segment(E, c.s)), TRUE, <<>>, <<>>)
       [] c.op = "sub"  -> say(<<>>, Flat(SubSeq(t, p + 1, q)))
       [] c.op = "str"  -> say(<<n>>, Flat(t))
       [] c.op = "wid"  -> say(<<P[q + 1] - P[p + 1]>>, <<>>)
       [] c.op = "word" -> LET top == WordTop(C, E, t, s.cur)
                           IN say(<<top, top>>, Flat(SubSeq(t, top + 1, s.cur)))
       [] c.op = "suf"  -> say(<<>>, IF s.cur = n THEN Predict(C, s) ELSE <<>>)
       [] c.op = "vw"   -> say(<<a.vw>>, <<>>)
       [] c.op = "none" -> say(<<0>>, c.s)                 \* a command without a function goes on
       [] c.op = "cur"  -> answer(Goto(s, p), a.fresh, <<>>, <<>>)
       [] c.op = "cmd"  -> LET x == Step(E, C, s, c.s)
                           IN answer([x EXCEPT !.clipw = s.clipw + @], a.fresh, <<>>, <<>>)
       [] OTHER         -> answer(s, TRUE, <<>>, <<>>)      \* functions that draw

(* vw: columns for the line. *)
CallSteps(E, C, st, cs, vw) ==
  LET r == FoldLeft(LAMBDA a, c: CallStep(E, C, a, c),
                    [s |-> [st EXCEPT !.clipw = 0], fresh |-> TRUE, drawn |-> FALSE, said |-> FALSE, vw |-> vw, rets |-> <<>>], cs)
  IN [r EXCEPT !.s = CutCur(@)]

DoneOf(rc) == CASE rc = 1 -> "ENTER" [] rc = 2 -> "EOF" [] rc = 3 -> "INTR" [] OTHER -> ""

Called(E, C, st, e) == [CallSteps(E, C, st, e.cs, 0).s EXCEPT !.done = DoneOf(e.rc)]
=============================================================================
