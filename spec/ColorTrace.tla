----------------------------- MODULE ColorTrace -----------------------------
(***************************************************************************)
(* Judges recorded operations on colour sequences.  An event logs the      *)
(* operation and, for both registers, the bytes written, the count         *)
(* reported, and for every writer that stops after m bytes the count and   *)
(* whether an error was reported.                                          *)
(***************************************************************************)
EXTENDS Color, Json, IOUtils

If(c, what) == IF c THEN {<<"C21", what>>} ELSE {}

CBegin(tr) == <<<<>>, <<>>>>

CJudge(tr, st, e) ==
  LET n == ColorStep(st, e.o)
  IN [s |-> n,
      bad |-> UNION {UNION {
        If(e.out[r] # Render(n[r]), "bytes"),
        If(e.n[r] # Len(e.out[r]), "count"),
        If(\E k \in 1..Len(e.short[r]) : LET w == e.short[r][k] IN w[1] < Len(e.out[r]) /\ (w[2] # w[1] \/ w[3] # 1), "write-error")}
        : r \in 1..2}]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- CBegin, Judge <- CJudge
=============================================================================
