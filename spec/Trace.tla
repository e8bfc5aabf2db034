------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real editor against Editor and *)
(* Screen.  Every trace in the file named by the environment variable      *)
(* TRACES is one initial state; every logged event is one step.  After an  *)
(* event the specification continues from the logged line and cursor, so   *)
(* each event is judged on its own.                                        *)
(*                                                                         *)
(* A disagreement is printed as <<"BAD", trace id, event number, property, *)
(* what>> when the property is one of those in FOCUS.                      *)
(***************************************************************************)
EXTENDS Calls

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
ASSUME TLCSet(4, TLCEval({f.id : f \in Range(ndJsonDeserialize(IOEnv.FOCUS))}))

TraceFile == TLCGet(3)
Focus     == TLCGet(4)

VARIABLES t, i, s, aux
vars == <<t, i, s, aux>>

(***************************************************************************)
(* aux: what the checks need to remember about the screen: current width,  *)
(* columns of the prompt, view start, line, row and column at the previous *)
(* event, widths that may have taken effect just before a nested prompt    *)
(* was opened; and what happened before: number of reads, whether this read has *)
(* searched or been resized, the last command that edited.                 *)
(***************************************************************************)
Aux0 == [w |-> 0, pcols |-> <<>>, cells |-> <<>>, cur |-> 0, vs |-> 0,
         rd |-> 0, srch |-> FALSE, rsz |-> FALSE, last |-> "", row |-> <<>>, col |-> 0, alt |-> {}, called |-> FALSE]

Init == /\ t \in 1..Len(TraceFile)
        /\ i = 0
        /\ s = Initial(TraceFile[t].cfg)
        /\ aux = Aux0

(* The property a wrong text or cursor after a command is charged to. *)
Owner(C, st, cmd) ==
  CASE cmd = "UNDO" -> "C02"
    [] cmd \in {"PREVIOUS_HISTORY", "NEXT_HISTORY"} -> "C03"
    [] cmd \in {"ISEARCH_BACKWARD", "SEARCH_KEY"} -> "C04"
    [] cmd = "COMPLETE" -> "C12"
    [] cmd = "FORWARD_CHAR" /\ st.cur = Len(st.txt) -> "C14"
    [] cmd \in {"YANK", "YANK_WITH_QUOTE"} -> "C16"
    [] OTHER -> "C01"

Paints(cmd, e) == \/ cmd \in {"SELF_INSERT", "BACKWARD_DELETE_CHAR"}
                  \/ cmd = "COMPLETE" /\ e.cells # aux.cells
MayMove == {"CLEAR_SCREEN", "REPAINT_ON_NEWLINE"}

BaseOps == {"CHA", "EL", "DECTCEM", "SCP", "RCP", "SGR", "DECSC", "DECRC", "BS", "CUF", "CUB", "CR"}

If(cond, pid, what) == IF cond THEN {<<pid, what>>} ELSE {}

(***************************************************************************)
(* Text, cursor, clipboard, history after an event: n is the specification *)
(* state, e the log.                                                       *)
(***************************************************************************)
TextBad(owner, n, e) ==
  UNION { If(Flat(n.txt) # e.str, owner, "text"),
          If(Flat(n.txt) = e.str /\ n.txt # e.cells, "C07", "cells"),
          If(Flat(n.txt) = e.str /\ n.txt # e.cells, owner, "cells"),
          If(Flat(e.cells) # e.str, "C07", "cellstring"),
          If(n.txt = e.cells /\ n.cur # e.cur, owner, "cursor"),
          If(e.cur < 0 \/ e.cur > Len(e.cells), owner, "cursor-range") }

(***************************************************************************)
(* The same disagreement may break further properties: those that promise  *)
(* something about the line in the situation at hand.                      *)
(***************************************************************************)
Kills == {"KILL_LINE", "UNIX_LINE_DISCARD", "UNIX_WORD_RUBOUT"}
Recalls == {"SELF_INSERT", "UNDO", "PREVIOUS_HISTORY", "NEXT_HISTORY", "SEARCH_KEY", "YANK",
            "YANK_WITH_QUOTE", "COMPLETE"}

AlsoBad(C, a, n, e, cmd) ==
  LET text == Flat(n.txt) # e.str
      any  == text \/ n.cur # e.cur
  IN UNION {
     If(text /\ cmd \in Recalls, "C07", "text"),
     If(text /\ cmd \in Kills, "C16", "text"),
     If(text /\ C.pred # "off", "C14", "text"),
     If(any /\ a.rd > 1, "C20", "later-read"),
     If(any /\ cmd = "UNDO" /\ a.srch, "C04", "undo-after-search"),
     If(any /\ cmd = "UNDO" /\ a.last = "COMPLETE", "C12", "undo-of-completion"),
     If(any /\ cmd = "UNDO" /\ a.called, "C22", "undo-of-calls"),
     If(any /\ a.rsz, "C09", "after-resize"),
     If(cmd \in Kills /\ n.clip # e.clip, "C07", "killed-text"),
     If(cmd \in {"PREVIOUS_HISTORY", "NEXT_HISTORY", "SEARCH_KEY"} /\ text, "C03", "text") }

SideBad(n, e) ==
  UNION { If(n.clip # e.clip, "C16", "clipboard"),
          If(n.clipw # e.clipw, "C16", "clipboard-writes"),
          If(n.hist # e.hist, "C03", "history-container") }

(***************************************************************************)
(* The screen, judged against the logged line, cursor and view start.      *)
(***************************************************************************)
ScreenBad(E, C, n, e, cmd, pid, w, pcols) ==
  LET vw   == ViewWidth(w, Len(pcols))
      L    == Layout(E, e.cells, e.cur, e.vs, w, pcols)
      ln   == [n EXCEPT !.txt = e.cells, !.cur = e.cur]
      pred == IF e.cur = Len(e.cells) /\ L.full THEN Predict(C, ln) ELSE <<>>
      bare == Trim(L.body)
      with == IF pred = <<>> THEN bare ELSE Trim(L.body \o TailCols(E, pred, vw, L.used))
      row  == e.row
  IN IF vw < 1 THEN {}
     ELSE IF e.vs < 0 \/ e.vs > e.cur \/ e.cur > Len(e.cells) THEN {<<pid, "view-start">>}
     ELSE UNION {
        If(~L.ok, pid, "cursor-not-in-view"),
        If(e.wrap, pid, "last-column"),
        If(L.ok /\ e.col # L.col, pid, "cursor-column"),
        If(L.ok /\ row # bare /\ row # with, pid, "row"),
        If(L.ok /\ C.color # "none" /\ ((row # bare /\ row # with) \/ e.col # L.col), "C15", "characters"),
        If(L.ok /\ C.pred # "off" /\ row # bare /\ row # with, "C14", "row"),
        If(L.ok /\ row = bare /\ bare # with /\ Paints(cmd, e), "C14", "prediction-not-shown"),
        If(L.ok /\ Trim(SubSeq(row, 1, IF Len(row) < Len(pcols) THEN Len(row) ELSE Len(pcols))) # Trim(pcols), "C18", "prompt") }

ColourBad(E, C, e, w, pcols) ==
  IF C.color = "none" \/ "C15" \notin Focus THEN {}
  ELSE LET P   == Positions(E, e.cells)
           vw  == ViewWidth(w, Len(pcols))
           end == MaxEnd(P, Len(e.cells), e.vs, vw)
           A   == LineAttrs(E, C.color, e.cells, e.cur, e.vs, end)
           top == Len(pcols)
           feed == Feed(e.cells, e.cur)
       IN IF vw < 1 \/ e.vs > e.cur \/ e.cur > Len(e.cells) THEN {}
          ELSE UNION {
            If(\E k \in 1..Len(A) : top + k <= Len(e.attrs) /\ e.attrs[top + k] # A[k], "C15", "colour"),
            If(e.tail # <<RestAttr(C.color)>>, "C15", "default-colour-not-restored"),
            If(Len(e.runs) > 0 /\ e.runs[Len(e.runs)] # feed, "C15", "fed"),
            If(\E k \in 1..Len(e.runs) :
                 Cardinality({j \in 1..Len(e.runs[k]) : e.runs[k][j] = CursorMark}) # 1, "C15", "marker") }

SearchBad(E, n, e, w, pcols) ==
  LET vw   == ViewWidth(w, Len(pcols))
      cols == CutCols(E, Segment(E, SearchPrompt(n)), vw)
  IN IF vw < 1 THEN {}
     ELSE UNION { If(e.row # Trim(pcols \o cols), "C04", "search-row"),
                  If(e.col # Len(pcols) + Len(cols), "C04", "search-column") }

OpsBad(e, extra) ==
  If(~(Range(e.ops) \subseteq BaseOps \cup extra), "C06", "control-sequence")

KeyOps(C, st, n, cmd) ==
  CASE cmd = "CLEAR_SCREEN" -> {"CUP", "ED", "LF"}
    [] cmd = "REPAINT_ON_NEWLINE" -> {"LF"}
    [] cmd = "UNDO" -> {"BEL"}
    [] cmd = "COMPLETE" -> {"BEL", "LF"}
    [] OTHER -> {}

-----------------------------------------------------------------------------
RcOf(d) == CASE d = "ENTER" -> 1 [] d = "EOF" -> 2 [] d = "INTR" -> 3 [] OTHER -> 0
ErrOf(d) == CASE d = "ENTER" -> "nil" [] d = "EOF" -> "eof" [] d = "INTR" -> "intr" [] OTHER -> d

EndBad(E, C, st, n, e, w, pcols) ==
  LET rc == RcOf(n.done)
      vw == ViewWidth(w, Len(pcols))
      lineOf(cells, cur) == Trim(Layout(E, cells, cur, aux.vs, w, pcols).body)
  IN UNION {
     If(e.res # (IF n.done = "ENTER" THEN Flat(n.txt) ELSE <<>>), "C08", "result"),
     If(e.res # (IF n.done = "ENTER" THEN Flat(n.txt) ELSE <<>>), "C07", "result"),
     If(e.err # ErrOf(n.done), "C08", "error"),
     If(e.open # 1 \/ e.close # 1, "C08", "open-close"),
     If(~e.vis, "C08", "cursor-hidden"),
     If(e.left # 0, "C08", "not-flushed"),
     If(C.lf /\ e.lf # <<rc>>, "C08", "line-feed-writer"),
     If(e.dy # 1 /\ e.oth = 0, "C08", "newline"),
     If(vw >= 1 /\ aux.vs <= aux.cur
        /\ e.row # lineOf(aux.cells, aux.cur)
        /\ (n.done = "ENTER" \/ e.row # Trim(pcols)), "C14", "row-after-end"),
     If(vw >= 1 /\ aux.vs <= aux.cur /\ C.pred = "off"
        /\ e.row # lineOf(aux.cells, aux.cur)
        /\ (n.done = "ENTER" \/ e.row # Trim(pcols)), "C05", "row-after-end") }

(* A terminal error ends the read: at start, or inside or outside a nested prompt. *)
FailBad(C, e) ==
  UNION { If(e.res # <<>>, "C08", "result-on-error"),
          If(e.err # "tty", "C08", "error-on-error"),
          If(e.lf # <<>>, "C08", "line-feed-on-error"),
          If(e.open # 1, "C08", "open-close"),
          If(e.close # (IF e.fail = "open" THEN 0 ELSE 1), "C08", "open-close"),
          If(~e.vis, "C08", "cursor-hidden"),
          If(e.left # 0, "C08", "not-flushed") }

(***************************************************************************)
(* A command of the program: e.cs the calls, e.rets the answers, e.rc what *)
(* it returned.                                                            *)
(***************************************************************************)
CallBad(E, C, st, r, n, e, w, pcols) ==
  LET move == \E k \in 1..Len(e.cs) : e.cs[k].op = "say"
      all  == UNION {
        TextBad("C22", n, e), SideBad(n, e), OpsBad(e, IF move \/ n.done # "" THEN {"LF", "BEL"} ELSE {"BEL"}),
        If(Len(e.rets) # Len(r.rets), "C22", "answers"),
        UNION {IF k > Len(e.rets) THEN {}
               ELSE If((e.rets[k].t # r.rets[k].t /\ (r.rets[k].known \/ e.cs[k].op # "suf")) \/ Len(e.rets[k].r) # Len(r.rets[k].r)
                       \/ (r.rets[k].known /\ e.rets[k].r # r.rets[k].r), "C22", "answer-" \o e.cs[k].op)
               : k \in 1..Len(r.rets)},
        If(~move /\ n.done = "" /\ (e.oth # 0 \/ e.dy # 0), "C22", "other-rows"),
        If(~move /\ n.done # "" /\ e.oth = 0 /\ e.dy # 1, "C22", "newline"),
        If(~e.vis, "C22", "cursor-hidden") }
  IN {<<"C22", x[2]>> : x \in all}

CallEndBad(E, C, n, e, w, pcols) ==
  UNION {
     If(e.res # Flat(n.txt) /\ (n.done = "ENTER" \/ e.res # <<>>), "C22", "result"),
     If(e.err # ErrOf(n.done), "C22", "error"),
     If(e.open # 1 \/ e.close # 1, "C22", "open-close"),
     If(e.left # 0, "C22", "not-flushed"),
     If(C.lf /\ e.lf # <<RcOf(n.done)>>, "C22", "line-feed-writer"),
     If(/\ ViewWidth(w, Len(pcols)) >= 1 /\ e.vs <= e.cur /\ e.cur <= Len(e.cells)
        /\ e.row # Trim(Layout(E, e.cells, e.cur, e.vs, w, pcols).body), "C22", "row-after-end") }

-----------------------------------------------------------------------------
(* Judgement of one event: new state, new aux and the set of disagreements. *)
Sync(n, e) == [n EXCEPT !.txt = e.cells, !.cur = IF e.cur <= Len(e.cells) THEN e.cur ELSE Len(e.cells),
                        !.clip = e.clip, !.hist = e.hist]
AuxOf(a, e) == [a EXCEPT !.cells = e.cells, !.cur = e.cur, !.vs = e.vs, !.row = e.row, !.col = e.col]

(***************************************************************************)
(* Resize notifications sent while the editor was busy: e.fired; e.rw is   *)
(* the width when they have been delivered, e.pend the widths when they may *)
(* still be waiting because a nested prompt is open or the read has ended. *)
(***************************************************************************)
WidthNow(a, e) == IF e.rw > 0 THEN e.rw ELSE a.w
Resized(a, e, st, n) ==
  [a EXCEPT !.w = WidthNow(a, e), !.rsz = @ \/ e.fired,
            !.alt = IF n.mode = "edit" THEN {} ELSE IF st.mode = "edit" THEN Range(e.pend) ELSE @]
(* The row a resize just before the end has left. *)
RowLeft(E, a, e, pcols) ==
  \E w \in Range(e.pend) :
     \/ ViewWidth(w, Len(pcols)) < 1
     \/ \E v \in 0..a.cur : LET L == Layout(E, a.cells, a.cur, v, w, pcols)
                            IN L.ok /\ e.row = Trim(L.body)
AsC09(cond, bad) == IF cond THEN {<<"C09", x[2]>> : x \in bad} ELSE {}

LastOf(a, st, n, cmd) ==
  [a EXCEPT !.srch = @ \/ n.mode = "search",
            !.last = IF Len(n.undo) > Len(st.undo) THEN cmd
                     ELSE IF cmd = "UNDO" THEN "" ELSE @]

Judge(E, C, st, a, e) ==
  IF e.k \in {"panic", "hang"}
  THEN [s |-> st, a |-> a,
        bad |-> {<<"C17", e.k>>}
                \cup (IF e.fail = "key" THEN {<<Owner(C, st, CmdIn(C, st, e.s)), e.k>>}
                      ELSE IF e.fail = "resize" THEN {<<"C09", e.k>>}
                      ELSE IF e.fail = "call" THEN {<<"C22", e.k>>}
                      ELSE {<<"C20", e.k>>})]
  ELSE IF e.k = "start" /\ e.fail # ""
  THEN [s |-> [st EXCEPT !.done = "tty"], a |-> a,
        bad |-> (IF e.end THEN FailBad(C, e) ELSE {<<"C08", "failure-ignored">>})]
  ELSE IF e.k = "start"
  THEN LET n  == Start(E, st, e.s, e.cur0)
           w  == IF e.rw > 0 THEN e.rw ELSE e.w
           pc == PromptCols(E, C, e.w)
           a1 == [a EXCEPT !.w = w, !.pcols = pc, !.rd = @ + 1, !.srch = FALSE, !.called = FALSE, !.rsz = e.fired, !.last = ""]
           scr == ScreenBad(E, C, n, e, "start", "C05", w, pc)
       IN IF e.end
          THEN [s |-> n, a |-> a1, bad |-> {<<"C08", "ended-at-start">>}]
          ELSE [s |-> Sync(n, e), a |-> AuxOf(a1, e),
                bad |-> UNION { TextBad("C20", n, e), SideBad(n, e), AlsoBad(C, a, n, e, "start"), scr,
                                AsC09(e.fired, TextBad("C09", n, e) \cup scr),
                                If(ViewWidth(w, Len(pc)) >= 1 /\ e.vs <= e.cur
                                   /\ e.col # Layout(E, e.cells, e.cur, e.vs, w, pc).col, "C18", "column"),
                                ColourBad(E, C, e, w, pc),
                                If(~e.vis, "C08", "cursor-hidden-at-start") }]
  ELSE IF e.k = "err"
  THEN IF e.end
       THEN [s |-> [st EXCEPT !.done = "tty", !.mode = "edit"], a |-> a, bad |-> FailBad(C, e)]
       ELSE IF st.mode = "edit"
       THEN [s |-> st, a |-> a, bad |-> {<<"C08", "error-swallowed">>}]
       ELSE [s |-> [Sync(st, e) EXCEPT !.mode = "edit"], a |-> AuxOf(a, e),
             bad |-> TextBad("C08", st, e)]
  ELSE IF e.k = "clip"
  THEN LET n == [st EXCEPT !.clip = e.s, !.fr = e.fr, !.fw = e.fw, !.clipw = 0]
       IN [s |-> n, a |-> a, bad |-> {}]
  ELSE IF e.k = "hadd"
  THEN LET n == [st EXCEPT !.hist = Append(@, e.s), !.clipw = 0]
       IN [s |-> n, a |-> a, bad |-> If(n.hist # e.hist, "C03", "history-add")]
  ELSE IF e.k = "call"
  THEN LET r  == CallSteps(E, C, st, e.cs, ViewWidth(a.w, Len(a.pcols)))
           n  == Called(E, C, st, e)
           mv == \E k \in 1..Len(e.cs) : e.cs[k].op = "say"
           pc == IF mv THEN PromptCols(E, C, a.w) ELSE a.pcols
           a1 == [a EXCEPT !.pcols = pc, !.called = TRUE, !.last = ""]
       IN IF e.end # (n.done # "") THEN [s |-> n, a |-> a1, bad |-> {<<"C22", "ended">>, <<"C08", "ended">>}]
          ELSE [s |-> Sync(n, e), a |-> AuxOf(a1, e),
                bad |-> CallBad(E, C, st, r, n, e, a.w, pc)
                        \cup (IF e.end THEN CallEndBad(E, C, n, e, a.w, pc)
                              ELSE ScreenBad(E, C, n, e, "call", "C22", a.w, pc))]
  ELSE IF e.k = "rnest"      \* notified inside a nested prompt: nothing happens yet
  THEN [s |-> Sync(st, e), a |-> [AuxOf(a, e) EXCEPT !.rsz = TRUE],
        bad |-> UNION { TextBad("C09", st, e),
                        If(e.row # a.row \/ e.col # a.col, "C09", "redrawn-in-nested-prompt"),
                        If(e.dy # 0 \/ e.oth # 0, "C09", "other-rows") }]
  ELSE IF e.k = "resize"
  THEN LET a1 == [a EXCEPT !.w = e.w, !.rsz = TRUE]
       IN [s |-> Sync(st, e), a |-> AuxOf(a1, e),
           bad |-> UNION { TextBad("C09", st, e),
                           ScreenBad(E, C, st, e, "resize", "C09", e.w, a.pcols),
                           ColourBad(E, C, e, e.w, a.pcols),
                           If(e.dy # 0 \/ e.oth # 0, "C09", "other-rows"),
                           If(e.dy # 0 \/ e.oth # 0, "C18", "other-rows"),
                           OpsBad(e, {}) }]
  ELSE \* a key
  LET n    == Step(E, C, st, e.s)
      cmd  == CmdIn(C, st, e.s)
      own  == Owner(C, st, cmd)
      pc   == IF cmd \in MayMove \/ (cmd = "COMPLETE" /\ C.comp.list) THEN PromptCols(E, C, WidthNow(a, e)) ELSE a.pcols
      w    == WidthNow(a, e)
      a1   == LastOf([Resized(a, e, st, n) EXCEPT !.pcols = pc], st, n, cmd)
      scr  == IF n.mode = "search"
              THEN LET b == SearchBad(E, n, e, a.w, pc)
                   IN IF \E x \in a1.alt : SearchBad(E, n, e, x, pc) = {} THEN {} ELSE b
              ELSE IF n.mode = "quote"
              THEN If(/\ a1.rsz
                      /\ e.row # a.row \/ e.col # a.col
                      /\ \A x \in a1.alt : ScreenBad(E, C, st, e, cmd, "C09", x, pc) # {}, "C09", "redrawn-in-nested-prompt")
              ELSE ScreenBad(E, C, n, e, cmd, "C05", w, pc)
      comp == IF cmd = "COMPLETE" THEN Completion(E, C.comp, st.txt, st.cur)
              ELSE [act |-> "", fields |-> <<>>]
      list == C.comp.list /\ comp.act = "list"
      move == cmd \in MayMove \/ list
  IN IF n.done # "" \/ e.end
     THEN IF ~e.end THEN [s |-> [n EXCEPT !.done = ""], a |-> a1, bad |-> {<<"C08", "did-not-end">>}]
          ELSE IF n.done = "" THEN [s |-> n, a |-> a1, bad |-> {<<"C08", "ended">>, <<own, "ended">>}]
          ELSE [s |-> [n EXCEPT !.clip = e.clip], a |-> a1,
                bad |-> UNION { EndBad(E, C, st, n, e, a.w, pc), SideBad(n, e), OpsBad(e, {"LF"}),
                                If(e.late # 0, "C09", "written-after-the-read"),
                                If(e.fired /\ e.oth # 0, "C09", "other-rows"),
                                AsC09(a1.rsz, {x \in EndBad(E, C, st, n, e, a.w, pc) :
                                                 x[2] # "row-after-end" \/ ~RowLeft(E, a, e, pc)}) }]
     ELSE
     [s |-> Sync(n, e), a |-> AuxOf(a1, e),
      bad |-> UNION {
        TextBad(own, n, e), SideBad(n, e), AlsoBad(C, a, n, e, cmd),
        If(cmd \in MayMove /\ Flat(n.txt) # e.str, "C05", "text"),
        scr,
        IF n.mode = "edit" THEN ColourBad(E, C, e, w, pc) ELSE {},
        AsC09(a1.rsz, TextBad("C09", n, e) \cup scr),
        If(a1.rsz /\ ~move /\ (e.dy # 0 \/ e.oth # 0), "C09", "other-rows"),
        IF n.mode = "edit" /\ st.mode = "search"
        THEN {<<"C04", x[2]>> : x \in {y \in ScreenBad(E, C, n, e, cmd, "C04", w, pc) : y[1] = "C04"}}
        ELSE {},
        IF move THEN {<<"C18", x[2]>> : x \in {y \in ScreenBad(E, C, n, e, cmd, "C18", w, pc) : y[1] = "C18"}}
        ELSE {},
        If(~move /\ (e.dy # 0 \/ e.oth # 0), "C05", "other-rows"),
        If(cmd = "CLEAR_SCREEN" /\ \E k \in 1..Len(e.scr) : k > 6 /\ e.scr[k] # <<>>, "C05", "not-cleared"),
        If(~e.vis, "C08", "cursor-hidden"),
        If(cmd = "COMPLETE" /\ comp.act # "" /\ e.nfld > 0 /\ e.flds # comp.fields, "C12", "fields"),
        If(cmd = "COMPLETE" /\ comp.fields # <<>> /\ e.nfld # 1, "C12", "list-calls"),
        If(list /\ C.scr /\ ~(\A k \in 1..Len(comp.list) :
                        LET x == IF C.comp.bases = <<>> THEN comp.list[k]
                                 ELSE C.comp.bases[CHOOSE j \in 1..Len(C.comp.cands) : C.comp.cands[j] = comp.list[k]]
                        IN \/ \E y \in 1..Len(x) : x[y] < 32 \/ Info(E, x[y]).tw = 0        \* not shown as it is
                           \/ \E r \in 1..Len(e.scr) : HasSub(e.scr[r] \o [y \in 1..Len(x) |-> 32], x)),     \* rows have no blanks at their end
           "C12", "not-listed"),
        If(cmd = "COMPLETE" /\ ~list /\ (e.dy # 0 \/ e.oth # 0), "C12", "listed"),
        OpsBad(e, KeyOps(C, st, n, cmd)),
        {<<"C06", x[2]>> : x \in {y \in (IF n.mode = "search" THEN SearchBad(E, n, e, a.w, pc)
                                        ELSE IF n.mode = "quote" THEN {}
                                        ELSE ScreenBad(E, C, n, e, cmd, "C06", w, pc))
                                 : y[1] = "C06" /\ y[2] = "row"}} }]

-----------------------------------------------------------------------------
Next ==
  /\ i < Len(TraceFile[t].ev)
  /\ LET tr == TraceFile[t]
         e  == tr.ev[i + 1]
         E  == SetEnv(EnvOf[tr.cfg.env], tr.cfg)
         j  == Judge(E, tr.cfg, s, aux, e)
         hit == {b \in j.bad : b[1] \in Focus}
     IN /\ s' = j.s
        /\ aux' = j.a
        /\ (IF hit = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> tr.id, ev |-> i + 1, hit |-> hit])))
  /\ i' = i + 1
  /\ t' = t

View == <<t, i>>

Spec == Init /\ [][Next]_vars
=============================================================================
