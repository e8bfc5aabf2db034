-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The functions on characters and their widths, which a program using the *)
(* library may call at any time: splitting a text, the width of a text,    *)
(* the count of its characters, and the settings (character widths, the    *)
(* display of characters outside the basic plane, the width of joined      *)
(* pairs) that change their results.  The state is the terminal setting.   *)
(***************************************************************************)
EXTENDS Moji

TextStep(E, o) ==
  CASE o.op = "setw"   -> [E EXCEPT !.ov = Append(SelectSeq(@, LAMBDA x: x.cp # o.cp), [cp |-> o.cp, w |-> o.w])]
    [] o.op = "resetw" -> [E EXCEPT !.ov = <<>>]
    [] o.op = "surr"   -> [E EXCEPT !.surr = o.on]
    [] o.op = "zw"     -> [E EXCEPT !.zw = o.w]
    [] OTHER           -> E

(* Where every character of a text starts, and where the text ends. *)
TextPos(E, text) == Positions(E, Segment(E, text))
TextWidthOf(E, text) == TextPos(E, text)[Len(TextPos(E, text))]
=============================================================================
