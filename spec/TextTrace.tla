----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Judges recorded calls of the functions on characters.  An event logs    *)
(* the call and what the functions then answer for the text o.s.           *)
(***************************************************************************)
EXTENDS Text

If(c, what) == IF c THEN {<<"C07", what>>} ELSE {}

Utf8Len(cp) == IF cp < 128 THEN 1 ELSE IF cp < 2048 THEN 2 ELSE IF cp < 65536 THEN 3 ELSE 4
CellBytes(cell) == FoldLeft(LAMBDA a, cp: a + Utf8Len(cp), 0, cell)

RECURSIVE Trim(_)
Trim(row) == IF row # <<>> /\ row[Len(row)] = Blank THEN Trim(SubSeq(row, 1, Len(row) - 1)) ELSE row

XBegin(tr) == EnvOf[tr.cfg.env]

XJudge(tr, st, e) ==
  LET n  == TextStep(st, e.o)
      cs == Segment(n, e.o.s)
      P  == Positions(n, cs)
      ok == e.cells = cs
  IN [s |-> n,
      bad |-> UNION {
        If(e.surr # n.surr, "surrogate-flag"),
        If(Flat(e.cells) # e.o.s, "text"),
        If(~ok, "characters"),
        If(e.count # Len(cs), "count"),
        If(e.width # P[Len(P)], "width"),
        If(ok /\ \E i \in 1..Len(cs) : e.ws[i] # P[i + 1] - P[i], "character-width"),
        If(Len(e.bytes) # Len(e.cells) \/ \E i \in 1..Len(e.cells) : e.bytes[i] # CellBytes(e.cells[i]) \/ e.len[i] # CellBytes(e.cells[i]), "bytes"),
        If(n.zw >= 0 /\ ok /\ (e.rows # 0 \/ e.row # Trim(LineCols(n, cs, 0, Len(cs)))), "display"),
        If(n.zw >= 0 /\ ok /\ e.col # P[Len(P)], "column") }]

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))
VARIABLES t, i, s
INSTANCE Loop WITH Begin <- XBegin, Judge <- XJudge
=============================================================================
