------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* The line editor as a state machine over keys.                           *)
(*                                                                         *)
(* Step(E, C, s, key) is the state after the key `key' (a sequence of code *)
(* points as delivered by the terminal) in state s, for terminal setting E *)
(* and editor configuration C.  It is a function: the editor is            *)
(* deterministic.                                                          *)
(*                                                                         *)
(* State s:                                                                *)
(*   txt   the line, a sequence of cells        cur   cursor, 0..Len(txt)  *)
(*   undo  stack of [b, c]: the line before an edit, and the cursor after  *)
(*         that edit has been undone                                       *)
(*   hist  history entries (texts), oldest first                           *)
(*   hp    place in the history, 0..Len(hist); Len(hist) = the new line    *)
(*   saved texts with which places of the history were left (function)     *)
(*   clip  clipboard text;  fr, fw: reading / writing it fails             *)
(*   mode  "edit", "quote" (next key literally), "search"                  *)
(*   q, found, fpos   search text, line found, index last found (1-based;  *)
(*         0 when there is no history)                                     *)
(*   done  "" or how the read has ended                                    *)
(*   clipw number of clipboard writes by this step                         *)
(***************************************************************************)
EXTENDS Moji, Complete

None == "none"

KeyTab ==
     (<<1>>  :> "BEGINNING_OF_LINE") @@ (<<2>>  :> "BACKWARD_CHAR")
  @@ (<<3>>  :> "INTR")              @@ (<<4>>  :> "DELETE_OR_ABORT")
  @@ (<<5>>  :> "END_OF_LINE")       @@ (<<6>>  :> "FORWARD_CHAR")
  @@ (<<8>>  :> "BACKWARD_DELETE_CHAR") @@ (<<11>> :> "KILL_LINE")
  @@ (<<12>> :> "CLEAR_SCREEN")      @@ (<<13>> :> "ACCEPT_LINE")
  @@ (<<14>> :> "NEXT_HISTORY")      @@ (<<16>> :> "PREVIOUS_HISTORY")
  @@ (<<17>> :> "QUOTED_INSERT")     @@ (<<18>> :> "ISEARCH_BACKWARD")
  @@ (<<20>> :> "SWAPCHAR")          @@ (<<21>> :> "UNIX_LINE_DISCARD")
  @@ (<<22>> :> "QUOTED_INSERT")     @@ (<<23>> :> "UNIX_WORD_RUBOUT")
  @@ (<<25>> :> "YANK")              @@ (<<26>> :> "UNDO")
  @@ (<<27>> :> "KILL_WHOLE_LINE")   @@ (<<31>> :> "UNDO")
  @@ (<<127>> :> "BACKWARD_DELETE_CHAR")
  @@ (<<27, 98>>  :> "BACKWARD_WORD")   @@ (<<27, 102>> :> "FORWARD_WORD")
  @@ (<<27, 118>> :> "YANK")            @@ (<<27, 121>> :> "YANK_WITH_QUOTE")
  @@ (<<27, 91, 49, 59, 53, 68>> :> "BACKWARD_WORD")     \* ctrl-left
  @@ (<<27, 91, 49, 59, 53, 67>> :> "FORWARD_WORD")      \* ctrl-right
  @@ (<<27, 91, 51, 126>> :> "DELETE_CHAR")
  @@ (<<27, 91, 65>> :> "PREVIOUS_HISTORY") @@ (<<27, 91, 66>> :> "NEXT_HISTORY")
  @@ (<<27, 91, 67>> :> "FORWARD_CHAR")     @@ (<<27, 91, 68>> :> "BACKWARD_CHAR")
  @@ (<<27, 91, 70>> :> "END_OF_LINE")      @@ (<<27, 91, 72>> :> "BEGINNING_OF_LINE")

BindKeys == DOMAIN KeyTab

(* The harness binds ^O, and TAB when a completion is configured. *)
Cmd(C, key) ==
  IF key = <<15>> THEN "REPAINT_ON_NEWLINE"
  ELSE IF key = <<9>> /\ C.comp.on THEN "COMPLETE"
  ELSE IF key \in BindKeys THEN KeyTab[key]
  ELSE "SELF_INSERT"

(* Which command a key runs, given the mode. *)
CmdIn(C, s, key) ==
  CASE s.mode = "quote"  -> "SELF_INSERT"
    [] s.mode = "search" -> "SEARCH_KEY"
    [] OTHER             -> Cmd(C, key)

-----------------------------------------------------------------------------
(* Sequence surgery; positions are 0-based gaps between cells. *)
Before(t, n)   == SubSeq(t, 1, n)
After(t, n)    == SubSeq(t, n + 1, Len(t))
Ins(t, n, x)   == Before(t, n) \o x \o After(t, n)
Del(t, a, b)   == Before(t, a) \o After(t, b)
Min2(a, b)     == IF a < b THEN a ELSE b

(* Replace cells a+1..b by x; one undoable edit. *)
Edit(s, a, b, x) ==
  [s EXCEPT !.txt  = Before(s.txt, a) \o x \o After(s.txt, b),
            !.cur  = a + Len(x),
            !.undo = Append(@, [b |-> s.txt, c |-> b])]

Goto(s, n) == [s EXCEPT !.cur = n]

SetClip(s, text) ==
  [s EXCEPT !.clip = IF s.fw THEN @ ELSE text, !.clipw = @ + 1]

-----------------------------------------------------------------------------
(* Word motions. *)
RECURSIVE SkipBack(_, _, _, _), SkipFwd(_, _, _, _)
SkipBack(E, t, n, sp) == IF n > 0 /\ IsSpaceCell(E, t[n]) = sp THEN SkipBack(E, t, n - 1, sp) ELSE n
SkipFwd(E, t, n, sp)  == IF n < Len(t) /\ IsSpaceCell(E, t[n + 1]) = sp THEN SkipFwd(E, t, n + 1, sp) ELSE n

WordBack(E, t, n) == SkipBack(E, t, SkipBack(E, t, n, TRUE), FALSE)
WordFwd(E, t, n)  == SkipFwd(E, t, SkipFwd(E, t, n, FALSE), TRUE)

(* Start of the word that ends at gap n; blanks inside quotes (C.delims) belong to it. *)
WordTop(C, E, t, n) ==
  LET step(a, i) ==
        LET c  == t[i]
            ch == IF Len(c) = 1 THEN c[1] ELSE 0
            q2 == IF a.q = 0 THEN (IF ch \in Range(C.delims) THEN ch ELSE 0)
                  ELSE IF ch = a.q THEN 0 ELSE a.q
        IN IF IsSpaceCell(E, c) /\ q2 = 0 THEN [q |-> q2, top |-> -1]
           ELSE [q |-> q2, top |-> IF a.top < 0 THEN i - 1 ELSE a.top]
      r == FoldLeft(step, [q |-> 0, top |-> -1], [i \in 1..n |-> i])
  IN IF r.top < 0 THEN n ELSE r.top

-----------------------------------------------------------------------------
(* Prediction: the text suggested after the line. *)
RECURSIVE NewestWithPrefix(_, _, _)
NewestWithPrefix(h, p, i) ==
  IF i = 0 THEN <<>>
  ELSE IF Len(h[i]) >= Len(p) /\ SubSeq(h[i], 1, Len(p)) = p
       THEN SubSeq(h[i], Len(p) + 1, Len(h[i]))
       ELSE NewestWithPrefix(h, p, i - 1)

Predict(C, s) ==
  LET t == Flat(s.txt)
  IN IF C.pred = "off" \/ t = <<>> THEN <<>>
     ELSE IF C.pred = "custom"
     THEN IF t[Len(t)] = 63 THEN <<>>
          ELSE [i \in 1..(Len(t) % 4) |-> 120] \o <<12354, 121>>
     ELSE NewestWithPrefix(s.hist, t, Len(s.hist))

-----------------------------------------------------------------------------
(* Typing. *)
SelfInsert(E, s, key0) ==
  LET key == IF Len(key0) = 2 /\ key0[1] = 27 /\ key0[2] < 128 THEN <<key0[2]>> ELSE key0
      k1  == key[1]
      n   == s.cur
      joins == IsZWJ(E, k1) \/ IsVS(E, k1) \/ IsMod(E, k1)
  IN IF key = <<>> THEN Edit(s, n, n, <<>>)
     ELSE IF joins /\ n > 0
     THEN Edit(s, n - 1, n, Segment(E, s.txt[n] \o key))
     ELSE IF E.zwj /\ n > 1 /\ s.txt[n] = <<ZWJ>>
     THEN Edit(s, n - 2, n, Segment(E, s.txt[n - 1] \o <<ZWJ>> \o key))
     ELSE Edit(s, n, n, Segment(E, key))

RECURSIVE TrimEol(_)
TrimEol(t) == IF t # <<>> /\ t[Len(t)] \in {13, 10, 0} THEN TrimEol(SubSeq(t, 1, Len(t) - 1)) ELSE t

(* The clipboard text as inserted by yank-with-quote. *)
RECURSIVE QuoteCrLf(_)
QuoteCrLf(t) == IF Len(t) < 2 THEN t
                ELSE IF t[1] = 13 /\ t[2] = 10
                THEN <<34, 13, 10, 34>> \o QuoteCrLf(SubSeq(t, 3, Len(t)))
                ELSE <<t[1]>> \o QuoteCrLf(Tail(t))
DoubleQuotes(t) == FlattenSeq([i \in 1..Len(t) |-> IF t[i] = 34 THEN <<34, 34>> ELSE <<t[i]>>])
Quoted(t) ==
  IF 32 \in Range(t) /\ t[1] # 34
  THEN QuoteCrLf(<<34>> \o DoubleQuotes(t) \o <<34>>)
  ELSE t

-----------------------------------------------------------------------------
(* History. *)
Shown(s, p) == IF p \in DOMAIN s.saved THEN s.saved[p]
               ELSE IF p < Len(s.hist) THEN s.hist[p + 1] ELSE <<>>

(* Leave the current place and show place p. *)
Visit(E, s, p) ==
  LET s1 == [s EXCEPT !.saved = (s.hp :> Flat(s.txt)) @@ @, !.hp = p]
  IN Edit(s1, 0, Len(s.txt), Segment(E, Shown(s1, p)))

Prev(E, C, s) ==
  IF Len(s.hist) = 0 THEN s
  ELSE IF s.hp > 0 THEN Visit(E, s, s.hp - 1)
  ELSE IF C.cyc THEN Visit(E, s, Len(s.hist)) ELSE s

Next1(E, s) ==
  IF Len(s.hist) = 0 \/ s.hp >= Len(s.hist) THEN s ELSE Visit(E, s, s.hp + 1)

-----------------------------------------------------------------------------
(* Incremental search. *)
Upper(E, t) == [i \in 1..Len(t) |-> Info(E, t[i]).up]
HasSub(t, u) == \E i \in 0..(Len(t) - Len(u)) : SubSeq(t, i + 1, i + Len(u)) = u
Matches(E, line, q) == HasSub(Upper(E, line), Upper(E, q))

RECURSIVE NewestMatch(_, _, _, _)
NewestMatch(E, h, q, i) == IF i = 0 THEN 0 ELSE IF Matches(E, h[i], q) THEN i ELSE NewestMatch(E, h, q, i - 1)

Research(E, s, q) ==
  LET i == NewestMatch(E, s.hist, q, Len(s.hist))
  IN [s EXCEPT !.q = q,
               !.found = IF i = 0 THEN <<>> ELSE s.hist[i],
               !.fpos  = IF i = 0 THEN @ ELSE i]

RECURSIVE OlderMatch(_, _, _), NewerMatch(_, _, _)
OlderMatch(E, s, i) ==      \* i counts down, wrapping, until it is back
  LET j == IF i <= 0 THEN Len(s.hist) ELSE i
  IN IF j = s.fpos \/ j = 0 THEN 0
     ELSE IF Matches(E, s.hist[j], s.q) /\ s.found # s.hist[j] THEN j
     ELSE OlderMatch(E, s, j - 1)
NewerMatch(E, s, i) ==
  IF i > Len(s.hist) THEN 0
  ELSE IF Matches(E, s.hist[i], s.q) /\ s.found # s.hist[i] THEN i
  ELSE NewerMatch(E, s, i + 1)

Take(s, i) == IF i = 0 THEN s ELSE [s EXCEPT !.found = s.hist[i], !.fpos = i]

SearchStart(s) ==
  [s EXCEPT !.mode = "search", !.q = <<>>, !.found = <<>>, !.fpos = Len(s.hist)]

SearchKey(E, s, key) ==
  CASE key \in {<<8>>, <<127>>} ->
         Research(E, s, IF s.q = <<>> THEN <<>> ELSE SubSeq(s.q, 1, Len(s.q) - 1))
    [] key = <<13>> ->
         Edit([s EXCEPT !.mode = "edit"], 0, Len(s.txt), Segment(E, s.found))
    [] key \in {<<3>>, <<7>>, <<27>>} -> [s EXCEPT !.mode = "edit"]
    [] key = <<18>> -> Take(s, OlderMatch(E, s, s.fpos - 1))
    [] key = <<19>> -> Take(s, NewerMatch(E, s, s.fpos + 1))
    [] OTHER -> IF key = <<>> \/ Info(E, key[1]).ctl THEN s
                ELSE Research(E, s, Append(s.q, key[1]))

SearchPrompt(s) ==   \* "(i-search)[q]:found"
  <<40, 105, 45, 115, 101, 97, 114, 99, 104, 41, 91>> \o s.q \o <<93, 58>> \o s.found

-----------------------------------------------------------------------------
Swap(s) ==
  LET n == Len(s.txt)
      a == IF s.cur = n THEN s.cur - 2 ELSE s.cur - 1
  IN IF a < 0 THEN s
     ELSE Edit(s, a, a + 2, <<s.txt[a + 2], s.txt[a + 1]>>)

Undo(s) ==
  IF s.undo = <<>> THEN s
  ELSE LET u == s.undo[Len(s.undo)]
       IN [s EXCEPT !.txt = u.b, !.cur = u.c, !.undo = SubSeq(@, 1, Len(@) - 1)]

Complete1(E, C, s) ==
  LET r == Completion(E, C.comp, s.txt, s.cur)
  IN IF r.act # "replace" THEN s
     ELSE Edit(s, r.from, s.cur, Segment(E, r.text))

Step(E, C, s0, key) ==
  LET s == [s0 EXCEPT !.clipw = 0]
      t == s.txt
      n == Len(t)
      c == s.cur
      cmd == CmdIn(C, s, key)
  IN
  CASE cmd = "SELF_INSERT"       -> SelfInsert(E, [s EXCEPT !.mode = "edit"], key)
    [] cmd = "SEARCH_KEY"        -> SearchKey(E, s, key)
    [] cmd = "BEGINNING_OF_LINE" -> Goto(s, 0)
    [] cmd = "END_OF_LINE"       -> Goto(s, n)
    [] cmd = "BACKWARD_CHAR"     -> Goto(s, IF c > 0 THEN c - 1 ELSE 0)
    [] cmd = "FORWARD_CHAR"      ->
         IF c < n THEN Goto(s, c + 1)
         ELSE LET p == Predict(C, s)
              IN IF p = <<>> THEN s ELSE Edit(s, c, c, Segment(E, p))
    [] cmd = "BACKWARD_WORD"     -> Goto(s, WordBack(E, t, c))
    [] cmd = "FORWARD_WORD"      -> Goto(s, WordFwd(E, t, c))
    [] cmd = "BACKWARD_DELETE_CHAR" -> IF c > 0 THEN Edit(s, c - 1, c, <<>>) ELSE s
    [] cmd = "DELETE_CHAR"       -> IF c < n THEN Edit(s, c, c + 1, <<>>) ELSE s
    [] cmd = "DELETE_OR_ABORT"   ->
         IF n = 0 THEN [s EXCEPT !.done = "EOF"]
         ELSE IF c < n THEN Edit(s, c, c + 1, <<>>) ELSE s
    [] cmd = "KILL_LINE"         -> SetClip(Edit(s, c, n, <<>>), Flat(After(t, c)))
    [] cmd = "KILL_WHOLE_LINE"   -> Edit(s, 0, n, <<>>)
    [] cmd = "UNIX_LINE_DISCARD" ->
         SetClip(IF c = 0 THEN s ELSE Edit(s, 0, c, <<>>), Flat(Before(t, c)))
    [] cmd = "UNIX_WORD_RUBOUT"  ->
         LET m == WordTop(C, E, t, SkipBack(E, t, c, TRUE))
         IN SetClip(IF m = c THEN s ELSE Edit(s, m, c, <<>>), Flat(SubSeq(t, m + 1, c)))
    [] cmd = "SWAPCHAR"          -> Swap(s)
    [] cmd = "YANK"              ->
         IF s.fr THEN s ELSE Edit(s, c, c, Segment(E, TrimEol(s.clip)))
    [] cmd = "YANK_WITH_QUOTE"   ->
         IF s.fr THEN s ELSE Edit(s, c, c, Segment(E, Quoted(s.clip)))
    [] cmd = "UNDO"              -> Undo(s)
    [] cmd = "PREVIOUS_HISTORY"  -> Prev(E, C, s)
    [] cmd = "NEXT_HISTORY"      -> Next1(E, s)
    [] cmd = "ISEARCH_BACKWARD"  -> SearchStart(s)
    [] cmd = "QUOTED_INSERT"     -> [s EXCEPT !.mode = "quote"]
    [] cmd = "COMPLETE"          -> Complete1(E, C, s)
    [] cmd = "INTR"              -> [s EXCEPT !.txt = <<>>, !.cur = 0, !.undo = <<>>, !.done = "INTR"]
    [] cmd = "ACCEPT_LINE"       -> [s EXCEPT !.done = "ENTER"]
    [] OTHER                     -> s       \* CLEAR_SCREEN, REPAINT_ON_NEWLINE

(* A new read: default text, configured cursor, newest end of the history. *)
Start(E, s, def, cur0) ==
  LET t == Segment(E, def)
  IN [s EXCEPT !.txt = t, !.cur = Min2(cur0, Len(t)),
               !.undo = <<[b |-> <<>>, c |-> 0]>>,
               !.hp = Len(s.hist), !.saved = [p \in {} |-> <<>>],
               !.mode = "edit", !.q = <<>>, !.found = <<>>, !.fpos = 0,
               !.done = "", !.clipw = 0]

Initial(C) ==
  [txt |-> <<>>, cur |-> 0, undo |-> <<>>, hist |-> C.hist, hp |-> Len(C.hist),
   saved |-> [p \in {} |-> <<>>], clip |-> C.clip, fr |-> FALSE, fw |-> FALSE,
   mode |-> "edit", q |-> <<>>, found |-> <<>>, fpos |-> 0, done |-> "", clipw |-> 0]

=============================================================================
