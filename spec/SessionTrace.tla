---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Judges recorded programs.  An event logs the operation, the fields of   *)
(* the editor after it ("?" is a value the program has not given), where   *)
(* output arrived during it and, for a read, its result.                   *)
(***************************************************************************)
EXTENDS Session

If(c, what) == IF c THEN {<<"C20", what>>} ELSE {}

SBegin(tr) == Fresh

Name(v) == IF v \in {"def", "new"} THEN "?" ELSE v
ErrOf(d) == CASE d = "ENTER" -> "nil" [] d = "EOF" -> "eof" [] d = "INTR" -> "intr" [] OTHER -> d

SJudge(tr, st, e) ==
  LET E == EnvOf[tr.cfg.env]
      n == SessionStep(E, st, e.o)
      r == ReadAll(E, Filled(st))
      f == [w |-> e.w, out |-> e.out, hist |-> e.hist, pred |-> e.pred, color |-> e.color, tty |-> e.tty]
  IN [s |-> n,
      bad |-> UNION {
        UNION {If(f[x] # Name(n[x]) /\ ~(n[x] = "bufA" /\ x = "out" /\ f[x] = "?"), "field-" \o x) : x \in DOMAIN f},
        If(e.def # n.def, "setting-default"), If(e.cyc # n.cyc, "setting-cycling"), If(e.lf # n.lf, "setting-line-feed"),
        If(e.pr # n.pr, "setting-prompt"), If(e.cur # n.cur, "setting-cursor"), If(~e.paint, "setting-colour"),
        IF e.o.op = "read"
        THEN UNION { If(e.err # ErrOf(r.done), "error"), If(e.line # r.line, "line"), If(e.got # <<n.to>>, "output"),
                     If(e.lost, "output-lost"), If(n.color = "K" /\ ~e.coloured, "colouring-not-used"),
                     If(e.size # <<80, 25>>, "size"),
                     If(e.lfs # (IF n.lf = "nil" THEN <<>> ELSE <<r.done>>), "line-feed"),
                     If(e.prs # (IF n.pr = "nil" THEN <<>> ELSE <<n.pr>>), "prompt") }
        ELSE If(e.o.op # "out" /\ e.got # <<>>, "output-without-read") }]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- SBegin, Judge <- SJudge
=============================================================================
