------------------------------- MODULE Resize -------------------------------
(***************************************************************************)
(* A read and the resize notifications that arrive during it: two          *)
(* processes, the editor and the watcher of the terminal, that share one   *)
(* lock, the line, the width and the screen.                               *)
(*                                                                         *)
(* The editor goes through the phases of a read; at each of them the       *)
(* environment may send a notification (Fire), which the watcher delivers  *)
(* in order, one at a time.  `rule' selects the discipline of the editor;  *)
(* "sound" is the one the property describes, the others leave one thing   *)
(* out and are there to show that the invariants notice it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)
Rule == M.rule

(* Commands: "edit" changes the line, "nest" reads another key with a       *)
(* prompt of its own before it does, "end" ends the read.                   *)
Kinds == M.kinds
Widths == 1..M.widths       \* width 1 is the one the terminal starts with

VARIABLES pc,       \* phase of the editor
          lock,     \* "", "ed" or "rs"
          line,     \* number of edits made
          width,    \* the width the editor paints for
          scr,      \* what the terminal shows: line, width, whether a nested prompt
          part,     \* something is written that the terminal has not got yet
          started, finished,
          early,    \* width notified before the editor had started
          now,      \* width of the terminal
          sizeSeen, \* what the terminal said when it was asked
          q,        \* notifications not delivered yet
          rpc, rw,  \* the watcher: phase and width it delivers
          cmd,      \* the command that runs
          keys,     \* keys typed
          torn,     \* two processes were in the editor's state together
          sched     \* the keys, and where notifications were sent
vars == <<pc, lock, line, width, scr, part, started, finished, early, now, sizeSeen, q, rpc, rw, cmd, keys, torn, sched>>

Phases == <<"open", "size", "prompt", "paint0", "wait", "got", "cmd", "nest", "paint", "lf", "close", "done">>
Code(p) == CHOOSE i \in 1..Len(Phases) : Phases[i] = p

Init ==
  /\ pc = "open" /\ lock = "" /\ line = 0 /\ width = 0 /\ part = FALSE
  /\ scr = [line |-> 0, w |-> 0, nest |-> FALSE, rows |-> 0]
  /\ started = FALSE /\ finished = FALSE /\ early = 0
  /\ now = 1 /\ sizeSeen = 0 /\ q = <<>> /\ rpc = "idle" /\ rw = 0
  /\ cmd = "" /\ keys = 0 /\ torn = FALSE /\ sched = <<>>

Paint(w) == [scr EXCEPT !.line = line, !.w = w, !.nest = FALSE]

(***************************************************************************)
(* The editor.                                                             *)
(***************************************************************************)
EdVars == <<lock, line, width, scr, part, started, finished, early, sizeSeen, cmd, keys, torn, sched>>
RsVars == <<now, q, rpc, rw>>

Opened == /\ pc = "open" /\ pc' = "size" /\ sizeSeen' = now
          /\ UNCHANGED <<lock, line, width, scr, part, started, finished, early, cmd, keys, torn, sched>> /\ UNCHANGED RsVars
Sized  == /\ pc = "size" /\ pc' = "prompt0"
          /\ UNCHANGED EdVars /\ UNCHANGED RsVars
Begin  == /\ pc = "prompt0" /\ lock = "" /\ lock' = "ed" /\ pc' = "prompt"
          /\ width' = IF early > 0 /\ Rule # "forget-early" THEN early ELSE sizeSeen
          /\ UNCHANGED <<line, scr, part, started, finished, early, sizeSeen, cmd, keys, torn, sched>> /\ UNCHANGED RsVars
Prompted == /\ pc = "prompt" /\ pc' = "paint0"
            /\ UNCHANGED EdVars /\ UNCHANGED RsVars
Painted0 == /\ pc = "paint0" /\ pc' = "wait"
            /\ scr' = Paint(width) /\ started' = TRUE /\ lock' = ""
            /\ UNCHANGED <<line, width, part, finished, early, sizeSeen, cmd, keys, torn, sched>> /\ UNCHANGED RsVars
Key == /\ pc = "wait"
       /\ \E n \in 1..Len(Kinds) :
            /\ Kinds[n] = "end" \/ keys < M.keys
            /\ cmd' = Kinds[n] /\ sched' = Append(sched, n)
       /\ pc' = "got" /\ keys' = keys + 1
       /\ UNCHANGED <<lock, line, width, scr, part, started, finished, early, sizeSeen, torn>> /\ UNCHANGED RsVars
Enter == /\ pc = "got" /\ pc' = "cmd"
         /\ IF Rule = "no-lock" THEN lock' = lock ELSE lock = "" /\ lock' = "ed"
         /\ UNCHANGED <<line, width, scr, part, started, finished, early, sizeSeen, cmd, keys, torn, sched>> /\ UNCHANGED RsVars
Nest == /\ pc = "cmd" /\ cmd = "nest"
        /\ pc' = "nest" /\ scr' = [scr EXCEPT !.nest = TRUE]
        /\ lock' = IF Rule = "nested-unlock" THEN "" ELSE lock
        /\ UNCHANGED <<line, width, part, started, finished, early, sizeSeen, cmd, keys, torn, sched>> /\ UNCHANGED RsVars
Nested == /\ pc = "nest" /\ pc' = "paint"
          /\ IF Rule = "nested-unlock" THEN lock = "" /\ lock' = "ed" ELSE lock' = lock
          /\ line' = line + 1
          /\ torn' = (torn \/ rpc = "draw")
          /\ UNCHANGED <<width, scr, part, started, finished, early, sizeSeen, cmd, keys, sched>> /\ UNCHANGED RsVars
Edit == /\ pc = "cmd" /\ cmd # "nest"
        /\ pc' = "paint" /\ line' = IF cmd = "edit" THEN line + 1 ELSE line
        /\ torn' = (torn \/ rpc = "draw")
        /\ UNCHANGED <<lock, width, scr, part, started, finished, early, sizeSeen, cmd, keys, sched>> /\ UNCHANGED RsVars
Painted == /\ pc = "paint" /\ scr' = Paint(width) /\ part' = FALSE
           /\ torn' = (torn \/ rpc = "draw")
           /\ IF cmd = "end" THEN pc' = "lf" /\ lock' = lock
              ELSE pc' = "wait" /\ lock' = IF Rule = "no-lock" THEN lock ELSE ""
           /\ UNCHANGED <<line, width, started, finished, early, sizeSeen, cmd, keys, sched>> /\ UNCHANGED RsVars
LineFeed == /\ pc = "lf" /\ pc' = "close"
            /\ scr' = [scr EXCEPT !.rows = @ + 1]
            /\ finished' = (Rule # "never-finished")
            /\ lock' = IF Rule = "close-locked" THEN lock ELSE ""
            /\ UNCHANGED <<line, width, part, started, early, sizeSeen, cmd, keys, torn, sched>> /\ UNCHANGED RsVars
(* The terminal is closed when its watcher is not delivering anything. *)
Closed == /\ pc = "close" /\ rpc = "idle" /\ pc' = "done" /\ lock' = ""
          /\ UNCHANGED <<line, width, scr, part, started, finished, early, sizeSeen, cmd, keys, torn, sched>> /\ UNCHANGED RsVars

(***************************************************************************)
(* The environment and the watcher.                                        *)
(***************************************************************************)
Sent == Cardinality({i \in 1..Len(sched) : sched[i] > 100})
Fire == /\ pc \in {Phases[i] : i \in 1..Len(Phases)}
        /\ Sent < M.fires
        /\ \E w \in Widths \ {now} :
             /\ now' = w /\ q' = Append(q, w)
             /\ sched' = Append(sched, 100 * Code(pc) + w)
        /\ UNCHANGED <<pc, lock, line, width, scr, part, started, finished, early, sizeSeen, rpc, rw, cmd, keys, torn>>
Take == /\ rpc = "idle" /\ q # <<>>
        /\ rpc' = "call" /\ rw' = Head(q) /\ q' = Tail(q)
        /\ UNCHANGED <<pc, lock, line, width, scr, part, started, finished, early, now, sizeSeen, cmd, keys, torn, sched>>
Deliver ==
  /\ rpc = "call" /\ lock = ""
  /\ IF finished THEN rpc' = "idle" /\ UNCHANGED <<lock, early, width, torn>>
     ELSE IF ~started THEN rpc' = "idle" /\ early' = rw /\ UNCHANGED <<lock, width, torn>>
     ELSE /\ rpc' = "draw" /\ lock' = "rs" /\ width' = rw
          /\ torn' = (torn \/ pc \in {"cmd", "paint"})
          /\ UNCHANGED early
  /\ UNCHANGED <<pc, line, scr, part, started, finished, now, sizeSeen, q, rw, cmd, keys, sched>>
Drawn ==
  /\ rpc = "draw" /\ rpc' = "idle" /\ lock' = ""
  /\ IF Rule = "no-flush" THEN part' = TRUE /\ scr' = scr
     ELSE part' = FALSE /\ scr' = Paint(width)
  /\ UNCHANGED <<pc, line, width, started, finished, early, now, sizeSeen, q, rw, cmd, keys, torn, sched>>

Over == pc = "done" /\ q = <<>> /\ rpc = "idle"
Stay == Over /\ Sent = M.fires /\ UNCHANGED vars
(* A read that has returned: the schedule is complete. *)
Quiet == Over /\ Sent < M.fires /\ UNCHANGED vars

Editor == \/ Opened \/ Sized \/ Begin \/ Prompted \/ Painted0 \/ Key \/ Enter \/ Nest
          \/ Nested \/ Edit \/ Painted \/ LineFeed \/ Closed
Watcher == Take \/ Deliver \/ Drawn
Next == Editor \/ Watcher \/ Fire \/ Stay \/ Quiet
Spec == Init /\ [][Next]_vars /\ WF_vars(Editor) /\ WF_vars(Watcher)

EmitPath == (Over' /\ sched' # sched) \/ (pc' = "done" /\ pc # "done" /\ Over') \/ (Over' /\ ~Over)
            => PrintT("PATH " \o ToJson(sched'))

-----------------------------------------------------------------------------
(* C09 *)
Settled == pc = "wait" /\ q = <<>> /\ rpc = "idle"
NoRace == ~torn
DisplayObeys == Settled => scr.w = now /\ scr.line = line /\ ~scr.nest /\ ~part
NothingLost  == pc = "nest" => scr.nest
EditsCount   == line <= keys
(* The width changes in no command, and nothing but a command changes the line. *)
Atomic == [][ ((pc \in {"cmd", "nest", "paint"} /\ pc' = pc) => width' = width)
             /\ (line' # line => pc \in {"cmd", "nest"}) ]_vars
(* Nothing is drawn when the line has been left. *)
NothingLate == [][ (pc \in {"close", "done"}) => (scr' = scr) ]_vars
(* The read ends and every notification is delivered. *)
Ends == <>(pc = "done")
Delivered == (q # <<>>) ~> (q = <<>> /\ rpc = "idle")
=============================================================================
