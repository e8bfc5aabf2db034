-------------------------------- MODULE Moji --------------------------------
(***************************************************************************)
(* Characters of the line editor.                                          *)
(*                                                                         *)
(* A text is a sequence of code points.  The editor works on "cells": one  *)
(* cell is one user-visible character, a non-empty sequence of code points.*)
(* This module says how a text splits into cells, how many columns a cell  *)
(* takes, and what a cell looks like on a terminal row.                    *)
(*                                                                         *)
(* E is the terminal setting: a record [name, surr, zwj, vs, mod, amb] of  *)
(* capabilities, the widths ov of characters set by the program using the  *)
(* library, and the columns zw a joiner takes (-1: the joined pair is 2    *)
(* columns wide).  RuneTab[E.name][cp] gives the table facts about a code   *)
(* point: w (width by the width library), tw (columns on the modelled      *)
(* terminal), vs (variation selector or enclosing mark), sp (white space), *)
(* ctl (control), up (upper case), fold (case-folding representative).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

(* The table comes from the file named by the environment variable RUNES   *)
(* (written by the harness from the Unicode and width tables), one line    *)
(* per terminal setting; mc.runes holds the code points of the small       *)
(* models.                                                                 *)
RuneFile == ndJsonDeserialize(IF "RUNES" \in DOMAIN IOEnv THEN IOEnv.RUNES ELSE "mc.runes")

(* Where cp is in the list, which is in ascending order. *)
RECURSIVE Place(_, _, _, _)
Place(list, cp, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF list[mid].cp < cp THEN Place(list, cp, mid + 1, hi) ELSE Place(list, cp, lo, mid)

RuneFun(list) == [c \in {list[i].cp : i \in 1..Len(list)} |-> list[Place(list, c, 1, Len(list))]]

EnvNames == {r.env.name : r \in Range(RuneFile)}

(* Computed once, before the first state, and kept in a TLC register: TLC  *)
(* would otherwise evaluate the definitions again at every use.            *)
ASSUME TLCSet(1, TLCEval([n \in EnvNames |->
             TLCEval(RuneFun((CHOOSE r \in Range(RuneFile) : r.env.name = n).runes))]))
ASSUME TLCSet(2, TLCEval([n \in EnvNames |-> (CHOOSE r \in Range(RuneFile) : r.env.name = n).env]))

RuneTab == TLCGet(1)
EnvOf   == TLCGet(2)

ZWJ == 8205                      \* U+200D
CursorMark == 57344              \* U+E000
Blank == <<32>>
Cont == <<-1>>                   \* second column of a wide character

OvInfo(E, cp) ==
  LET r == RuneTab[E.name][cp]
      K == {k \in 1..Len(E.ov) : E.ov[k].cp = cp}
  IN IF K = {} THEN r
     ELSE LET w == E.ov[CHOOSE k \in K : \A m \in K : m <= k].w
          IN [r EXCEPT !.w = w,
                       !.tw = IF cp = ZWJ \/ r.vs \/ (cp >= 127462 /\ cp <= 127487) THEN @ ELSE w]

Info(E, cp) == IF E.ov = <<>> THEN RuneTab[E.name][cp] ELSE OvInfo(E, cp)

(* The setting env of a program that made the choices c. *)
SetEnv(env, c) == [env EXCEPT !.ov = c.ov, !.surr = @ /\ ~c.nosurr, !.zw = IF c.zw = "sum" THEN 0 ELSE @]

IsVS(E, cp)  == E.vs /\ Info(E, cp).vs
IsMod(E, cp) == E.mod /\ cp >= 127995 /\ cp <= 127999      \* U+1F3FB..1F3FF
IsZWJ(E, cp) == E.zwj /\ cp = ZWJ

IsBox(E, cp) == E.amb /\ cp >= 9472 /\ cp <= 9599          \* U+2500..257F

Escaped(E, cp) == \/ Info(E, cp).vs
                  \/ cp >= 65536 /\ ~E.surr
                  \/ Info(E, cp).w = 0

(* How a code point that starts a cell is displayed. *)
Class(E, cp) ==
  IF cp = 9 THEN "tab"
  ELSE IF cp < 32 THEN "ctrl"
  ELSE IF IsBox(E, cp) THEN "flag"
  ELSE IF Escaped(E, cp) THEN "esc"
  ELSE IF cp >= 127462 /\ cp <= 127487 THEN "ri"           \* U+1F1E6..1F1FF
  ELSE IF cp >= 119808 /\ cp <= 120831 THEN "flag"         \* U+1D400..1D7FF
  ELSE IF cp = 127987 THEN "flag"                          \* U+1F3F3
  ELSE "raw"

Joinable(E, cell) == Class(E, cell[1]) \notin {"tab", "ctrl", "esc"}

(***************************************************************************)
(* Splitting.  zj: the last code point was a joiner after a joinable cell  *)
(* and waits for its right-hand side.                                      *)
(***************************************************************************)
SegOne(E, st, cp) ==
  LET n == Len(st)  last == st[n]
  IN  IF n > 0 /\ Joinable(E, last) /\ (IsVS(E, cp) \/ IsMod(E, cp))
      THEN [st EXCEPT ![n] = Append(last, cp)]
      ELSE Append(st, <<cp>>)

SegStep(E, acc, cp) ==
  IF acc.zj
  THEN IF Class(E, cp) = "raw"
       THEN [cs |-> [acc.cs EXCEPT ![Len(acc.cs)] = @ \o <<ZWJ, cp>>], zj |-> FALSE]
       ELSE LET alone == Append(acc.cs, <<ZWJ>>)
            IN [cs |-> SegOne(E, alone, cp), zj |-> FALSE]
  ELSE IF IsZWJ(E, cp) /\ Len(acc.cs) > 0 /\ Joinable(E, acc.cs[Len(acc.cs)])
       THEN [acc EXCEPT !.zj = TRUE]
       ELSE [acc EXCEPT !.cs = SegOne(E, @, cp)]

Segment(E, text) ==
  LET r == FoldLeft(LAMBDA acc, cp: SegStep(E, acc, cp), [cs |-> <<>>, zj |-> FALSE], text)
  IN IF r.zj THEN Append(r.cs, <<ZWJ>>) ELSE r.cs

Flat(cells) == FlattenSeq(cells)

(***************************************************************************)
(* Widths.                                                                 *)
(***************************************************************************)
RECURSIVE HexDigits(_)
HexDigits(n) == IF n < 16 THEN <<n>> ELSE Append(HexDigits(n \div 16), n % 16)
HexChar(d) == IF d < 10 THEN 48 + d ELSE 55 + d
EscText(cp) == <<60>> \o [i \in 1..Len(HexDigits(cp)) |-> HexChar(HexDigits(cp)[i])] \o <<62>>

BaseWidth(E, cp, pos) ==
  CASE Class(E, cp) = "tab"  -> 4 - (pos % 4)
    [] Class(E, cp) = "ctrl" -> 2
    [] Class(E, cp) = "flag" -> 2
    [] Class(E, cp) = "ri"   -> 2
    [] Class(E, cp) = "esc"  -> Len(HexDigits(cp)) + 2
    [] OTHER                 -> Info(E, cp).w

(* The width of a joined pair (configurable in the library). *)
JoinWidth(E, w1, w2) == IF E.zw < 0 THEN 2 ELSE w1 + E.zw + w2

LongWidth(E, cell, pos) ==
  LET step(a, cp) ==
        IF a.zj THEN [w |-> JoinWidth(E, a.w, Info(E, cp).w), f |-> FALSE, zj |-> FALSE]
        ELSE IF cp = ZWJ THEN [a EXCEPT !.zj = TRUE]
        ELSE IF IsMod(E, cp) THEN [w |-> a.w + Info(E, cp).w, f |-> FALSE, zj |-> FALSE]
        ELSE [w |-> IF a.f THEN a.w ELSE a.w + 1, f |-> FALSE, zj |-> FALSE]
  IN FoldLeft(step,
              [w |-> BaseWidth(E, cell[1], pos), f |-> Class(E, cell[1]) = "flag", zj |-> FALSE],
              Tail(cell)).w

CellWidth(E, cell, pos) ==
  IF Len(cell) = 1 THEN BaseWidth(E, cell[1], pos)
  ELSE LongWidth(E, cell, pos)

(* Column at which each cell of a line starts; element n+1 is the total width. *)
Positions(E, cells) ==
  FoldLeft(LAMBDA acc, c: Append(acc, acc[Len(acc)] + CellWidth(E, c, acc[Len(acc)])), <<0>>, cells)

TextWidth(E, cells) == Positions(E, cells)[Len(cells) + 1]

(***************************************************************************)
(* Columns a cell occupies on the modelled terminal.                       *)
(***************************************************************************)
PutCp(E, cols, prev, cp) ==
  LET tw == IF Info(E, cp).vs /\ prev # 0 /\ IsBox(E, prev) THEN 0
            ELSE IF cp = ZWJ /\ E.zwj THEN E.zw
            ELSE Info(E, cp).tw
  IN IF tw = 0
     THEN IF cols = <<>> THEN cols
          ELSE LET k == IF cols[Len(cols)] = Cont THEN Len(cols) - 1 ELSE Len(cols)
               IN [cols EXCEPT ![k] = Append(@, cp)]
     ELSE cols \o <<<<cp>>>> \o [i \in 1..(tw - 1) |-> Cont]

RawCols(E, cell) ==
  FoldLeft(LAMBDA a, cp: [c |-> PutCp(E, a.c, a.p, cp), p |-> cp], [c |-> <<>>, p |-> 0], cell).c

Fit(cols, w) == IF Len(cols) >= w THEN SubSeq(cols, 1, w)
                ELSE cols \o [i \in 1..(w - Len(cols)) |-> Blank]

BaseCols(E, cp, pos) ==
  CASE Class(E, cp) = "tab"  -> [i \in 1..(4 - (pos % 4)) |-> Blank]
    [] Class(E, cp) = "ctrl" -> <<<<94>>, <<cp + 64>>>>
    [] Class(E, cp) = "flag" -> Fit(RawCols(E, <<cp>>), 2)
    [] Class(E, cp) = "ri"   -> <<<<cp>>, Cont>>
    [] Class(E, cp) = "esc"  -> [i \in 1..Len(EscText(cp)) |-> <<EscText(cp)[i]>>]
    [] OTHER                 -> RawCols(E, <<cp>>)

CellCols(E, cell, pos) ==
  IF Len(cell) = 1 THEN BaseCols(E, cell[1], pos)
  ELSE
  LET step(a, i) ==      \* a.cols: columns of cell[1..i-1]
        LET cp == cell[i]
            w  == CellWidth(E, SubSeq(cell, 1, i), pos)
        IN IF cp = ZWJ /\ ~a.zj THEN [a EXCEPT !.zj = TRUE]
           ELSE IF a.zj
           THEN [cols |-> IF i = 3 /\ Class(E, cell[1]) = "flag"
                          THEN Fit(RawCols(E, SubSeq(cell, 1, i)), w)
                          ELSE PutCp(E, a.cols, 0, ZWJ) \o RawCols(E, <<cp>>),
                 zj |-> FALSE]
           ELSE [cols |-> Fit(RawCols(E, SubSeq(cell, 1, i)), w), zj |-> FALSE]
  IN FoldLeft(step, [cols |-> BaseCols(E, cell[1], pos), zj |-> FALSE],
              [i \in 1..(Len(cell) - 1) |-> i + 1]).cols

(* Columns of cells from+1..to of a line (each at its place in the whole line). *)
LineCols(E, cells, from, to) ==
  LET P == Positions(E, cells)
  IN FlattenSeq([i \in 1..(to - from) |-> CellCols(E, cells[from + i], P[from + i])])

(***************************************************************************)
(* Words.                                                                  *)
(***************************************************************************)
IsSpaceCell(E, cell) == Len(cell) = 1 /\ Info(E, cell[1]).sp

=============================================================================
