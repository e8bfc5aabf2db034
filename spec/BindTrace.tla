------------------------------ MODULE BindTrace ------------------------------
(***************************************************************************)
(* Judges recorded binding operations.  An event logs the operation, the   *)
(* error, the probed keys and, for each of them, the command (String()) of *)
(* both editors' LookupCommand and what Lookup of the three maps gives     *)
(* ("" is none); a "press" of the key and then Enter logs the marker       *)
(* commands run and the line.                                              *)
(***************************************************************************)
EXTENDS Bind, Json, IOUtils

If(c, what) == IF c THEN {<<"C11", what>>} ELSE {}

BBegin(tr) == Start

Shown(st, m, k) == LET c == Look(st, m, k) IN IF c = "" THEN k ELSE Bytes(c)
Marker(c) == c \in {"MARK1", "MARK2"}

PressBad(st, e) ==
  LET c == Look(st, e.o.m, e.o.key)
      enter == Look(st, e.o.m, <<13>>) = "ACCEPT_LINE"
  IN UNION {
       If(Marker(c) /\ (e.marks = <<>> \/ e.marks[1] # c), "not-run"),
       If(Len(e.marks) > (IF Marker(c) THEN 1 ELSE 0) + (IF Marker(Look(st, e.o.m, <<13>>)) THEN 1 ELSE 0), "other-run"),
       If(enter /\ Marker(c) /\ e.line # <<>>, "also-inserted"),
       If(enter /\ c = "" /\ Len(e.o.key) = 1 /\ e.o.key[1] \in 32..126 /\ e.line # e.o.key, "not-inserted") }

BJudge(tr, st, e) ==
  LET r == BindStep(st, e.o)
  IN [s |-> r.s,
      bad |-> UNION {
        If(e.err # r.err, "error"),
        If(e.o.op = "getfunc" /\ ~r.err /\ e.got # Bytes(CmdNamed[Norm(e.o.fname)]), "other-command"),
        If(\E k \in 1..Len(e.keys) : \E m \in 1..2 : e.look[m][k] # Shown(r.s, m, e.keys[k]), "lookup"),
        If(\E k \in 1..Len(e.keys) : \E m \in 1..3 :
              e.maps[m][k] # (IF e.keys[k] \in DOMAIN r.s[m] THEN Bytes(r.s[m][e.keys[k]]) ELSE <<>>), "map"),
        IF e.o.op = "press" THEN PressBad(r.s, e) ELSE {} }]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- BBegin, Judge <- BJudge
=============================================================================
