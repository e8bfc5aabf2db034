------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* A program and its editor (C20): which fields of the editor the program  *)
(* has set, the defaults given to the others, and reads from the scripted  *)
(* terminal, whose keys wait in q and are followed by Enter for ever.      *)
(*                                                                         *)
(* w and out name writers: "A" and "B" are the program's, "bufA" is its    *)
(* buffered one on A, "std" the standard output, "new" one made for w; to  *)
(* is where what goes to out ends.  lf and pr are what the program lets    *)
(* write the end of a line and the prompt, def and cur the line a read     *)
(* starts with; all but cur stay as they are until the program sets them   *)
(* again: a read leaves cur where its cursor ended.                        *)
(***************************************************************************)
EXTENDS Editor

Fresh == [w |-> "nil", out |-> "nil", to |-> "", hist |-> "nil", pred |-> "nil", color |-> "nil", tty |-> "nil",
          lf |-> "nil", pr |-> "nil", cyc |-> "off", def |-> <<>>, cur |-> 0, hs |-> <<>>, q |-> <<>>]

Sink(w) == IF w = "bufA" THEN "A" ELSE w

Filled(s) ==
  LET w == IF s.w = "nil" THEN "std" ELSE s.w
  IN [s EXCEPT !.w = w,
               !.out = IF @ # "nil" THEN @ ELSE IF w = "bufA" THEN "bufA" ELSE "new",
               !.to = IF s.out # "nil" THEN @ ELSE Sink(w),
               !.hist = IF @ = "nil" THEN "def" ELSE @,
               !.pred = IF @ = "nil" THEN "def" ELSE @,
               !.color = IF @ = "nil" THEN "def" ELSE @,
               !.tty = IF @ = "nil" THEN "def" ELSE @]

(* The editor specification with the fields as they are. *)
EdCfg(s) == [pred |-> IF s.pred = "P" THEN "custom" ELSE "hist", cyc |-> s.cyc = "on", comp |-> [on |-> FALSE], delims |-> <<34, 39>>,
             hist |-> IF s.hist = "H" THEN s.hs ELSE <<>>, clip |-> <<>>]

RECURSIVE Feed(_, _, _, _)
Feed(E, C, st, q) ==
  IF st.done # "" THEN [st |-> st, q |-> q]
  ELSE LET key == IF q = <<>> THEN <<13>> ELSE Head(q)
       IN Feed(E, C, Step(E, C, st, key), IF q = <<>> THEN q ELSE Tail(q))

ReadAll(E, s) ==
  LET C == EdCfg(s)
      r == Feed(E, C, Start(E, Initial(C), s.def, s.cur), s.q)
  IN [q |-> r.q, line |-> IF r.st.done = "ENTER" THEN Flat(r.st.txt) ELSE <<>>, done |-> r.st.done, cur |-> r.st.cur]

CanDo(s, o) == (o.op = "read" => s.tty = "pilot") /\ (o.op = "say" => s.out # "nil")

SessionStep(E, s, o) ==
  CASE o.op = "w"     -> [s EXCEPT !.w = o.v]
    [] o.op = "out"   -> [s EXCEPT !.out = o.v, !.to = o.v]
    [] o.op = "hist"  -> [s EXCEPT !.hist = o.v]
    [] o.op = "pred"  -> [s EXCEPT !.pred = o.v]
    [] o.op = "color" -> [s EXCEPT !.color = o.v]
    [] o.op = "tty"   -> [s EXCEPT !.tty = o.v]
    [] o.op = "lf"    -> [s EXCEPT !.lf = o.v]
    [] o.op = "pr"    -> [s EXCEPT !.pr = o.v]
    [] o.op = "cyc"   -> [s EXCEPT !.cyc = o.v]
    [] o.op = "def"   -> [s EXCEPT !.def = o.s]
    [] o.op = "cur"   -> [s EXCEPT !.cur = o.p]
    [] o.op = "hadd"  -> [s EXCEPT !.hs = Append(@, o.s)]
    [] o.op = "keys"  -> [s EXCEPT !.q = @ \o o.keys]
    [] o.op = "say"   -> s           \* the program writes to the output too
    [] o.op = "init"  -> Filled(s)
    [] o.op = "read"  -> LET f == Filled(s)  r == ReadAll(E, f) IN [f EXCEPT !.q = r.q, !.cur = r.cur]
=============================================================================
