--------------------------- MODULE TtySessionTrace ---------------------------
(***************************************************************************)
(* Judges sessions on a pseudo terminal.  Events:                          *)
(*   chunk  bytes were sent (after the previous ones had been taken)       *)
(*   line   a read returned (err: ENTER, INTR, EOF or other; s: the line;  *)
(*          same: the terminal modes are those from before the read;       *)
(*          gor: goroutines left)                                          *)
(*   size   the terminal got w columns; seen: the width the editor used    *)
(*   hup    the terminal was disconnected: the read has to fail            *)
(*   end    the child ended, or was killed with reads left                 *)
(***************************************************************************)
EXTENDS TtySession

If(c, what) == IF c THEN {<<"C19", what>>} ELSE {}

Cfg(tr) == tr.ev[1].cfg
Env(tr) == EnvOf[tr.cfg.env]

TBegin(tr) == [ses |-> NewSession(Env(tr), Cfg(tr)), gor |-> -1, hup |-> FALSE, used |-> TRUE]

TJudge(tr, st, e) ==
  LET E == Env(tr)
      C == Cfg(tr)
  IN CASE e.k = "cfg" -> [s |-> st, bad |-> {}]
       [] e.k = "chunk" -> [s |-> [st EXCEPT !.ses = Arrive(@, e.b), !.used = FALSE], bad |-> {}]
       [] e.k = "line" ->
            LET n == TakeKeys(E, C, st.ses)
            IN IF st.hup /\ n.ed.done = ""
               THEN [s |-> st, bad |-> UNION {If(e.err \in {"ENTER", "INTR"} \/ e.s # <<>>, "line-after-hangup")}]
               ELSE [s |-> [st EXCEPT !.ses = [n EXCEPT !.ed = Start(E, n.ed, <<>>, 0)],
                                      !.gor = IF @ < 0 THEN e.gor ELSE @],
                     bad |-> UNION {
                       If(n.ed.done = "", "line-not-sent"),
                       If(n.ed.done # "" /\ e.err # n.ed.done, "error"),
                       If(n.ed.done # "" /\ e.err = n.ed.done /\ e.s # Result(n.ed), "line"),
                       If(~e.same, "modes"),
                       If(st.gor >= 0 /\ e.gor > st.gor, "watcher-left") }]
       [] e.k = "size" -> [s |-> st, bad |-> If(e.seen # e.w, "resize-not-reported")]
       [] e.k = "hup" -> [s |-> [st EXCEPT !.hup = TRUE], bad |-> {}]
       [] e.k = "end" ->
            LET n == TakeKeys(E, C, st.ses)
            IN [s |-> st, bad |-> UNION {
                 If(e.left > 0 /\ n.ed.done # "", "line-missing"),
                 If(e.killed /\ st.hup, "hangs-after-hangup"),
                 If(e.status # "", "child-died") }]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- TBegin, Judge <- TJudge
=============================================================================
