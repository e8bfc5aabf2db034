--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exploration of the editor specification with small constants: checks    *)
(* what the properties say on the specification itself, and prints a path  *)
(* of events for every transition explored (a transition cover), which the *)
(* harness replays on the real editor.                                     *)
(*                                                                         *)
(* The constants come from the file named by the environment variable      *)
(* MCCFG: cfg (editor configuration), evs (list of events: keys, changes   *)
(* of the clipboard, history additions, new reads), bounds, and which part *)
(* of the state distinguishes states (view).                               *)
(***************************************************************************)
EXTENDS Calls

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)
C == M.cfg
E == SetEnv(EnvOf[C.env], C)

VARIABLES s,        \* state of the editor
          past,     \* texts before each edit not yet undone
          ev,       \* last event
          path      \* events so far (indexes in M.evs)
vars == <<s, past, ev, path>>

Begin == M.evs[1]   \* always the first read

Apply(st, e) ==
  CASE e.k = "key"   -> Step(E, C, st, e.s)
    [] e.k = "clip"  -> [st EXCEPT !.clip = e.s, !.fr = e.fr, !.fw = e.fw, !.clipw = 0]
    [] e.k = "hadd"  -> [st EXCEPT !.hist = Append(@, e.s), !.clipw = 0]
    [] e.k = "start" -> Start(E, st, e.s, e.cur)
    [] e.k = "call"  -> Called(E, C, st, e)

Can(st, e) == IF e.k \in {"start", "hadd"} THEN st.done # "" ELSE st.done = ""

CmdOf(st, e) == IF e.k = "key" THEN CmdIn(C, st, e.s) ELSE e.k

Init == /\ s = Apply(Initial(C), Begin)
        /\ past = <<<<>>>>
        /\ ev = 1
        /\ path = <<1>>

Next == \E n \in 1..Len(M.evs) :
  LET e == M.evs[n] IN
  /\ Can(s, e)
  /\ s' = Apply(s, e)
  /\ ev' = n
  /\ path' = Append(path, n)
  /\ past' = IF e.k = "start" THEN <<<<>>>>
             ELSE IF e.k = "call"
             THEN [k \in 1..Len(s'.undo) |-> IF k <= Len(past) THEN past[k] ELSE Flat(s'.undo[k].b)]
             ELSE IF s'.done = "INTR" THEN <<>>
             ELSE IF CmdOf(s, e) = "UNDO"
             THEN IF past = <<>> THEN past ELSE SubSeq(past, 1, Len(past) - 1)
             ELSE IF Len(s'.undo) > Len(s.undo) THEN Append(past, Flat(s.txt)) ELSE past

Bounded == /\ Len(s.txt) <= M.maxlen
           /\ Len(Flat(s.txt)) <= M.maxflat
           /\ Len(s.undo) <= M.maxundo
           /\ Len(s.q) <= M.maxq
           /\ Len(s.hist) <= M.maxhist
           /\ Len(path) <= M.maxdepth

View == CASE M.view = "text" -> <<s.txt, s.cur, s.mode, s.done>>
          [] M.view = "line" -> <<s.txt, s.cur, s.mode, s.done, s.clip, s.fr, s.fw>>
          [] M.view = "undo" -> <<s.txt, s.cur, s.undo, s.mode, s.done>>
          [] M.view = "hist" -> <<s.txt, s.hp, s.saved, s.hist, s.done, s.mode>>
          [] M.view = "search" -> <<s.txt, s.cur, s.mode, s.q, s.found, s.fpos, s.done, s.hist>>
          [] OTHER           -> <<s, past>>

(* Transitions out of the bounds are printed too when M.over, but not followed. *)
EmitPath == /\ IF M.emit /\ (M.over \/ Bounded') THEN PrintT("PATH " \o ToJson(path')) ELSE TRUE
            /\ Bounded'

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C01: the cursor stays in the line. *)
CursorInLine == s.cur \in 0..Len(s.txt) /\ \A i \in 1..Len(s.txt) : s.txt[i] # <<>>

(* C01: what a key may do to the line; everything else is left alone. *)
Plain(k) == k # <<>> /\ k[1] # 27
FrameStep ==
  LET e   == M.evs[ev']
      cmd == CmdOf(s, e)
      t   == s.txt
      u   == s'.txt
      c   == s.cur
      l   == Flat(Before(t, c))
      r   == Flat(After(t, c))
  IN CASE cmd \in {"BEGINNING_OF_LINE", "END_OF_LINE", "BACKWARD_CHAR", "BACKWARD_WORD", "FORWARD_WORD",
                   "CLEAR_SCREEN", "REPAINT_ON_NEWLINE", "QUOTED_INSERT", "ISEARCH_BACKWARD", "ACCEPT_LINE", "clip"}
            -> u = t
       [] cmd = "SELF_INSERT" /\ Plain(e.s) -> Flat(u) = l \o e.s \o r
       [] cmd = "BACKWARD_DELETE_CHAR" -> IF c = 0 THEN u = t ELSE u = Before(t, c - 1) \o After(t, c)
       [] cmd = "DELETE_CHAR" -> IF c = Len(t) THEN u = t ELSE u = Before(t, c) \o After(t, c + 1)
       [] cmd = "UNIX_WORD_RUBOUT" -> \E k \in 0..c : u = Before(t, k) \o After(t, c) /\ s'.cur = k
       [] cmd = "SWAPCHAR" -> u = t \/ \E k \in 1..(Len(t) - 1) :
                                u = [t EXCEPT ![k] = t[k + 1], ![k + 1] = t[k]]
       [] cmd \in {"YANK", "YANK_WITH_QUOTE"} -> \E k \in 0..Len(Flat(u)) :
             k >= Len(l) /\ SubSeq(Flat(u), 1, Len(l)) = l /\ SubSeq(Flat(u), k + 1, Len(Flat(u))) = r
       [] OTHER -> TRUE
Frame == [][FrameStep]_vars

(* C02: the undo history is the stack of the earlier texts. *)
UndoIsPast == [k \in 1..Len(s.undo) |-> Flat(s.undo[k].b)] = past
UndoStep == CmdOf(s, M.evs[ev']) = "UNDO" =>
              IF past = <<>> THEN s'.txt = s.txt /\ s'.cur = s.cur
              ELSE Flat(s'.txt) = past[Len(past)] /\ s'.cur \in 0..Len(s'.txt)
Undoes == [][UndoStep]_vars

(* C03: browsing keeps what was left, and the container. *)
InHistory == s.hp \in 0..Len(s.hist) /\ DOMAIN s.saved \subseteq 0..Len(s.hist)
ThereAndBack ==
  s.mode = "edit" /\ s.done = "" =>
    /\ s.hp > 0 => LET b == Next1(E, Prev(E, C, s)) IN b.hp = s.hp /\ Flat(b.txt) = Flat(s.txt) /\ b.cur = Len(b.txt)
    /\ s.hp < Len(s.hist) => LET b == Prev(E, C, Next1(E, s)) IN b.hp = s.hp /\ Flat(b.txt) = Flat(s.txt)
    /\ s.hp = 0 /\ ~C.cyc => Prev(E, C, s) = s
    /\ s.hp = 0 /\ C.cyc /\ s.hist # <<>> => Prev(E, C, s).hp = Len(s.hist)
    /\ s.hp = Len(s.hist) => Next1(E, s) = s
ContainerStep == M.evs[ev'].k # "hadd" => s'.hist = s.hist
Container == [][ContainerStep]_vars

(* C04: only matching entries are found, and one is found if there is any. *)
FoundMatches ==
  s.mode = "search" =>
    /\ s.found # <<>> => s.found \in Range(s.hist) /\ Matches(E, s.found, s.q)
    /\ s.found = <<>> /\ s.q # <<>> => \A i \in 1..Len(s.hist) : ~Matches(E, s.hist[i], s.q)
SearchStep ==
  CmdOf(s, M.evs[ev']) \in {"SEARCH_KEY", "ISEARCH_BACKWARD"} =>
    IF s'.mode = "edit" /\ M.evs[ev'].s = <<13>>
    THEN Flat(s'.txt) = s.found /\ s'.cur = Len(s'.txt)
    ELSE s'.txt = s.txt /\ s'.cur = s.cur /\ s'.undo = s.undo
Searches == [][SearchStep]_vars

(* C05: for every width there is a way to show the cursor, and every such  *)
(* way keeps off the last column.                                          *)
RowFits ==
  \A w \in Range(M.ws) :
    LET pc == PromptCols(E, C, w)
        n  == Len(s.txt)
        ok == {vs \in 0..s.cur : Layout(E, s.txt, s.cur, vs, w, pc).ok}
    IN ViewWidth(w, Len(pc)) < 1 \/
       /\ s.cur \in ok      \* showing the line from the cursor on always works
       /\ \A vs \in ok : LET L == Layout(E, s.txt, s.cur, vs, w, pc)
                         IN Len(L.body) < w - 1 /\ L.col < w - 1 /\ L.col <= Len(L.body)

(* C06: no control character on the row. *)
Harmless(cells) ==
  \A col \in Range(LineCols(E, cells, 0, Len(cells))) :
    \A k \in 1..Len(col) : col[k] = -1 \/ ~Info(E, col[k]).ctl
RowHarmless ==
  /\ Harmless(s.txt)
  /\ s.mode = "search" => Harmless(Segment(E, SearchPrompt(s)))

(* C07: widths are the columns of the displayed form; splitting loses nothing. *)
WidthsAgree ==
  /\ Len(LineCols(E, s.txt, 0, Len(s.txt))) = TextWidth(E, s.txt)
  /\ Flat(Segment(E, Flat(s.txt))) = Flat(s.txt)

(* C08: only these keys end a read. *)
EndStep ==
  s.done = "" /\ s'.done # "" =>
    LET e == M.evs[ev'] cmd == CmdOf(s, e)
    IN CASE s'.done = "ENTER" -> cmd = "ACCEPT_LINE" /\ s'.txt = s.txt
         [] s'.done = "INTR"  -> cmd = "INTR"
         [] s'.done = "EOF"   -> cmd = "DELETE_OR_ABORT" /\ s.txt = <<>>
         [] OTHER -> FALSE
Ends == [][EndStep]_vars

(* C12: completion touches the last word only. *)
CompleteStep ==
  CmdOf(s, M.evs[ev']) = "COMPLETE" =>
    LET r == Completion(E, C.comp, s.txt, s.cur)
    IN IF r.act # "replace" THEN s'.txt = s.txt /\ s'.cur = s.cur
       ELSE /\ r.from <= s.cur
            /\ s'.cur >= r.from /\ s'.cur <= Len(s'.txt)
            /\ Flat(Before(s'.txt, r.from)) = Flat(Before(s.txt, r.from))
            /\ Flat(After(s'.txt, s'.cur)) = Flat(After(s.txt, s.cur))
            /\ LET w   == r.fields[Len(r.fields)]
                   got == Strip(Flat(SubSeq(s'.txt, r.from + 1, s'.cur)), C.comp.enc)
               IN BeginsFold(E, got, Strip(w, C.comp.enc))
            /\ Undo(s').txt = s.txt
Completes == [][CompleteStep]_vars

(* C14: the prediction is inserted by moving right at the end only. *)
PredictStep ==
  CmdOf(s, M.evs[ev']) = "FORWARD_CHAR" =>
    IF s.cur < Len(s.txt) THEN s'.txt = s.txt /\ s'.cur = s.cur + 1
    ELSE Flat(s'.txt) = Flat(s.txt) \o Predict(C, s) /\ s'.cur = Len(s'.txt)
Predicts == [][PredictStep]_vars
PredictionIsRest ==
  C.pred = "hist" /\ Predict(C, s) # <<>> => (Flat(s.txt) \o Predict(C, s)) \in Range(s.hist)

(* C15: the colouring object gets the line, and the marker once. *)
FeedIsLine ==
  /\ SelectSeq(Feed(s.txt, s.cur), LAMBDA c: c # CursorMark) = Flat(s.txt)
  /\ Len(Feed(s.txt, s.cur)) = Len(Flat(s.txt)) + 1
  /\ Len(LineAttrs(E, C.color, s.txt, s.cur, 0, Len(s.txt))) = TextWidth(E, s.txt)

(* C16: what is killed is what goes to the clipboard. *)
ClipStep ==
  LET cmd == CmdOf(s, M.evs[ev'])
      c   == s'.cur
  IN IF cmd \in {"KILL_LINE", "UNIX_LINE_DISCARD", "UNIX_WORD_RUBOUT"}
     THEN /\ ~s.fw => Flat(Before(s'.txt, c)) \o s'.clip \o Flat(After(s'.txt, c)) = Flat(s.txt)
          /\ s.fw => s'.clip = s.clip
     ELSE cmd # "clip" => s'.clip = s.clip /\ s'.clipw = 0
Clips == [][ClipStep]_vars

(* C22: a command of the program changes the line by edits that can all be *)
(* taken back, ends where it says, and what it only asks changes nothing.  *)
Asks == {"sub", "str", "wid", "word", "suf", "vw", "none", "after", "head", "view", "last", "say"}
CallChecks ==
  LET e == M.evs[ev']
      n == Len(s.undo)
  IN e.k = "call" =>
       /\ s'.cur \in 0..Len(s'.txt)
       /\ (\A i \in 1..Len(e.cs) : e.cs[i].op # "cmd") =>
             /\ SubSeq(s'.undo, 1, n) = s.undo
             /\ IF Len(s'.undo) > n THEN s'.undo[n + 1].b = s.txt ELSE s'.txt = s.txt
             /\ s'.clip = s.clip /\ s'.hp = s.hp
       /\ (\A i \in 1..Len(e.cs) : e.cs[i].op \in Asks) => s' = [s EXCEPT !.clipw = 0, !.done = DoneOf(e.rc)]
CallsDo == [][CallChecks]_vars

(* C20: a read starts afresh. *)
StartStep ==
  M.evs[ev'].k = "start" =>
    /\ s'.undo = <<[b |-> <<>>, c |-> 0]>> /\ DOMAIN s'.saved = {} /\ s'.hp = Len(s'.hist)
    /\ Flat(s'.txt) = M.evs[ev'].s /\ s'.mode = "edit" /\ s'.clip = s.clip
Starts == [][StartStep]_vars
=============================================================================
