--------------------------- MODULE KeyDecodeTrace ---------------------------
(***************************************************************************)
(* Judges recorded calls of GetKey, GetRawKey and GetKeys.  An event logs  *)
(* the units of the whole stream (first event), the function called, the   *)
(* units consumed, keys, error, how often raw mode was entered and left,   *)
(* and the reads made outside it.                                          *)
(***************************************************************************)
EXTENDS KeyDecode, Json, IOUtils

If(c, what) == IF c THEN {<<"C10", what>>} ELSE {}

KBegin(tr) == 0          \* units consumed
KJudge(tr, st, e) ==
  [s |-> e.to,
   bad |-> UNION {
     {<<"C10", x>> : x \in CallBad(e.fn, tr.ev[1].units, st + 1, e.to, e.keys, e.err)},
     If(e.from # st, "consumed-outside-call"),
     If(e.fn # "raw" /\ e.rawfail = 0 /\ (e.enter # 1 \/ e.leave # 1), "raw-mode"),
     If(e.fn # "raw" /\ e.rawfail = 1 /\ (e.leave # 0 \/ e.err # "raw" \/ e.to # e.from), "raw-mode-failed"),
     If(e.fn # "raw" /\ e.outside # 0, "read-outside-raw-mode"),
     If(e.fn = "raw" /\ (e.enter # 0 \/ e.leave # 0), "raw-mode-touched") }]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- KBegin, Judge <- KJudge
=============================================================================
