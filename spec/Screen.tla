------------------------------- MODULE Screen -------------------------------
(***************************************************************************)
(* What the terminal row must show.                                        *)
(***************************************************************************)
EXTENDS Editor

Trim(cols) ==       \* without trailing blanks
  LET keep == {i \in 1..Len(cols) : cols[i] # Blank}
  IN IF keep = {} THEN <<>> ELSE SubSeq(cols, 1, CHOOSE m \in keep : \A i \in keep : i <= m)

(***************************************************************************)
(* The prompt: what the terminal shows after it, and where it ends.        *)
(* st: "" text, "e" after ESC, "c" inside CSI, "o" inside OSC, "t" after   *)
(* ESC inside OSC.                                                         *)
(***************************************************************************)
PutAt(cols, x, new) ==
  LET n == Len(new)
  IN [i \in 1..(IF Len(cols) > x + n THEN Len(cols) ELSE x + n) |->
        IF i > x /\ i <= x + n THEN new[i - x]
        ELSE IF i <= Len(cols) THEN cols[i] ELSE Blank]

PromptStep(E, a, cp) ==
  CASE a.st = "e" -> [a EXCEPT !.st = IF cp = 91 THEN "c" ELSE IF cp = 93 THEN "o"
                                     ELSE IF cp >= 32 /\ cp <= 47 THEN "e" ELSE ""]
    [] a.st = "c" -> [a EXCEPT !.st = IF cp >= 64 /\ cp <= 126 THEN "" ELSE "c"]
    [] a.st = "o" -> [a EXCEPT !.st = IF cp = 7 THEN "" ELSE IF cp = 27 THEN "t" ELSE "o"]
    [] a.st = "t" -> [a EXCEPT !.st = IF cp = 92 THEN "" ELSE "o"]
    [] cp = 27    -> [a EXCEPT !.st = "e"]
    [] cp = 13    -> [a EXCEPT !.x = 0]
    [] cp = 10    -> [a EXCEPT !.x = 0, !.cols = <<>>]
    [] cp = 8     -> [a EXCEPT !.x = IF @ > 0 THEN @ - 1 ELSE 0]
    [] cp = 9     -> LET t == 8 * (a.x \div 8 + 1)      \* to the next tab stop of the terminal
                     IN [a EXCEPT !.x = t, !.cols = PutAt(@, t, <<>>)]
    [] cp < 32    -> a
    [] Info(E, cp).tw = 0      \* joins the character before it
                  -> [a EXCEPT !.cols = PutAt(@, 0, PutCp(E, SubSeq(@, 1, a.x), 0, cp))]
    [] OTHER      -> LET new == RawCols(E, <<cp>>)
                     IN [a EXCEPT !.cols = PutAt(@, a.x, new), !.x = @ + Len(new)]

PromptText(C) == IF C.nilp THEN <<10, 62, 32>> ELSE C.prompt

PromptEnd(E, text) ==
  FoldLeft(LAMBDA a, cp: PromptStep(E, a, cp), [cols |-> <<>>, x |-> 0, st |-> ""], text)

(* Columns to the left of the edited text, for a terminal w columns wide. *)
PromptCols(E, C, w) ==
  LET p == PromptEnd(E, PromptText(C))
  IN IF p.x >= w - 3 THEN <<>> ELSE SubSeq(p.cols, 1, p.x)

-----------------------------------------------------------------------------
ViewWidth(w, top) == w - top - 3

(* Last cell shown when the view starts after cell vs. *)
MaxEnd(P, n, vs, vw) ==
  LET fits == {e \in vs..n : \A k \in (vs + 1)..e : P[k + 1] - P[vs + 1] < vw}
  IN CHOOSE e \in fits : \A k \in fits : k <= e

(* As many of the cells as fit in vw columns, as columns. *)
CutCols(E, cells, vw) ==
  LET P == Positions(E, cells)
      e == MaxEnd(P, Len(cells), 0, vw)
  IN LineCols(E, cells, 0, e)

(***************************************************************************)
(* The row for line `cells', cursor cur, view start vs: the prompt, the    *)
(* cells that fit, and the tail (a prediction or nothing).                 *)
(***************************************************************************)
Layout(E, cells, cur, vs, w, pcols) ==
  LET P  == Positions(E, cells)
      vw == ViewWidth(w, Len(pcols))
      e  == MaxEnd(P, Len(cells), vs, vw)
  IN [ok   |-> vs <= cur /\ cur <= e,
      body |-> pcols \o LineCols(E, cells, vs, e),
      used |-> P[e + 1] - P[vs + 1],
      full |-> e = Len(cells),
      col  |-> Len(pcols) + P[cur + 1] - P[vs + 1]]

TailCols(E, pred, vw, used) == CutCols(E, Segment(E, pred), vw - used)

-----------------------------------------------------------------------------
(* Colouring: the code points fed to the colouring object. *)
Feed(cells, cur) ==
  FlattenSeq([i \in 1..Len(cells) |-> IF i - 1 = cur THEN <<CursorMark>> \o cells[i] ELSE cells[i]])
  \o (IF cur = Len(cells) THEN <<CursorMark>> ELSE <<>>)

(* The colouring machines used: state and attribute for a code point.  "mono" is *)
(* the one a program gets that sets none; "def" gives some characters its default. *)
Col0 == [sum |-> 0, mark |-> FALSE, env |-> FALSE, quo |-> FALSE, at |-> "/"]
FgName(n) == CASE n = 0 -> "31" [] n = 1 -> "32" [] n = 2 -> "33" [] n = 3 -> "34" [] n = 4 -> "35" [] OTHER -> "36"
ColStep(kind, a, cp) ==
  IF kind = "vim"
  THEN LET env2 == IF cp = 37 THEN ~a.env ELSE a.env
           quo2 == IF cp = 34 THEN ~a.quo ELSE a.quo
           at   == IF cp = 12288 THEN "37/41"
                   ELSE IF a.env \/ env2 THEN "36/b"
                   ELSE IF a.quo \/ quo2 THEN "35/b"
                   ELSE IF cp = 38 THEN "33/" ELSE "/b"
       IN [a EXCEPT !.env = env2, !.quo = quo2, !.at = at]
  ELSE IF kind = "mono" THEN [a EXCEPT !.at = "/b"]
  ELSE IF kind = "def"
  THEN [a EXCEPT !.at = CASE cp % 4 = 0 -> "32/" [] cp % 4 = 1 -> "31/44" [] cp % 4 = 2 -> "/" [] OTHER -> "35/b"]
  ELSE IF cp = CursorMark THEN [a EXCEPT !.mark = TRUE]
  ELSE LET m == (a.sum + cp) % 6
       IN [a EXCEPT !.sum = m, !.at = FgName(m) \o (IF a.mark THEN "/45" ELSE "/44")]

(* The attribute in effect after the text. *)
RestAttr(kind) == CASE kind = "mono" -> "/b" [] kind = "def" -> "32/" [] OTHER -> "/"

(* Attribute of each cell. *)
CellAttrs(kind, cells, cur) ==
  LET step(a, i) ==
        LET c0 == IF i - 1 = cur THEN ColStep(kind, a.c, CursorMark) ELSE a.c
            c1 == FoldLeft(LAMBDA x, cp: ColStep(kind, x, cp), c0, cells[i])
        IN [c |-> c1, out |-> Append(a.out, c1.at)]
  IN FoldLeft(step, [c |-> Col0, out |-> <<>>], [i \in 1..Len(cells) |-> i]).out

LineAttrs(E, kind, cells, cur, from, to) ==
  LET P == Positions(E, cells)
      A == CellAttrs(kind, cells, cur)
  IN FlattenSeq([i \in 1..(to - from) |->
        [k \in 1..(P[from + i + 1] - P[from + i]) |-> A[from + i]]])

=============================================================================
