------------------------------- MODULE Prompt -------------------------------
(***************************************************************************)
(* Prompts put together of pieces (text, escape sequences, control         *)
(* characters): explores all of them up to a length and compares two       *)
(* descriptions of the column at which editing starts: Screen.PromptEnd,   *)
(* which plays the prompt on the terminal, and Count, which removes what   *)
(* does not take columns and adds up the rest.  Prints each prompt for the *)
(* replay on the real editor.                                              *)
(*                                                                         *)
(* MCCFG: cfg (editor configuration), pieces (list of code point lists),   *)
(* max (number of pieces).                                                 *)
(***************************************************************************)
EXTENDS Screen

ASSUME TLCSet(5, ndJsonDeserialize(IOEnv.MCCFG)[1])
M == TLCGet(5)
C == M.cfg
E == SetEnv(EnvOf[C.env], C)

VARIABLES pieces,   \* indexes in M.pieces
          text,     \* the prompt
          term      \* the terminal after it
vars == <<pieces, text, term>>

(* A backspace over anything but a narrow character shows half a wide one;
   a combining character needs something to combine with. *)
LastCp == IF text = <<>> THEN 0 ELSE text[Len(text)]
Sensible(p) == /\ p = <<8>> => LastCp = 97
               /\ p = <<769>> => LastCp \in {97, 12354}

Init == pieces = <<>> /\ text = <<>> /\ term = PromptEnd(E, <<>>)

Next == \E n \in 1..Len(M.pieces) :
  /\ Len(pieces) < M.max
  /\ Sensible(M.pieces[n])
  /\ pieces' = Append(pieces, n)
  /\ text' = text \o M.pieces[n]
  /\ term' = FoldLeft(LAMBDA a, cp: PromptStep(E, a, cp), term, M.pieces[n])

Spec == Init /\ [][Next]_vars

EmitPrompt == PrintT("PATH " \o ToJson(pieces'))

-----------------------------------------------------------------------------
(* The columns the pieces of the last row take, without regard to the order
   in which the terminal sees their characters. *)
IsSequence(p) == p[1] = 27
RowStart ==     \* pieces up to the last one that returns to the first column
  LET r == {k \in 1..Len(pieces) : M.pieces[pieces[k]] \in {<<13>>, <<10>>}}
  IN IF r = {} THEN 0 ELSE CHOOSE m \in r : \A k \in r : k <= m
Columns(at, p) == IF IsSequence(p) THEN 0
                  ELSE IF p = <<8>> THEN -1
                  ELSE IF p = <<9>> THEN 8 - (at % 8)
                  ELSE IF p[1] < 32 THEN 0
                  ELSE FoldLeft(LAMBDA a, cp: a + Info(E, cp).tw, 0, p)
Count == FoldLeft(LAMBDA a, k: LET n == a + Columns(a, M.pieces[k]) IN IF n < 0 THEN 0 ELSE n, 0,
                  SubSeq(pieces, RowStart + 1, Len(pieces)))

(* C18 *)
Sequences == term.st = ""                          \* every sequence is over
ColumnIsCount == term.x = Count
Ends == term = PromptEnd(E, text)
Room == \A w \in 1..30 :                           \* the line has room, or a row of its own
          LET c == PromptCols(E, [C EXCEPT !.prompt = text, !.nilp = FALSE], w)
          IN /\ Len(c) \in {0, term.x}
             /\ c = <<>> \/ ViewWidth(w, Len(c)) >= 1
             /\ term.x < w - 3 => Len(c) = term.x
=============================================================================
