-------------------------------- MODULE Color --------------------------------
(***************************************************************************)
(* Colour sequences (C21).  A sequence is its list of SGR parameters; it   *)
(* is written as ESC [ p1 ; p2 ; ... m, and as nothing when there are no   *)
(* parameters.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxParams == 6

Digits(n) == IF n < 10 THEN <<48 + n>>
             ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>>
             ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>

Render(p) ==
  IF p = <<>> THEN <<>>
  ELSE <<27, 91>> \o FoldLeft(LAMBDA a, k: a \o (IF k = 1 THEN <<>> ELSE <<59>>) \o Digits(p[k]),
                              <<>>, [k \in 1..Len(p) |-> k])
       \o <<109>>

(* The parameters a terminal finds in what was written. *)
Parse(bytes) ==
  IF bytes = <<>> THEN [ok |-> TRUE, p |-> <<>>]
  ELSE LET body == SubSeq(bytes, 3, Len(bytes) - 1)
           r == FoldLeft(LAMBDA a, b: IF b = 59 THEN [a EXCEPT !.p = Append(@, 0)]
                                      ELSE IF b \in 48..57
                                      THEN [a EXCEPT !.p[Len(a.p)] = @ * 10 + b - 48]
                                      ELSE [a EXCEPT !.ok = FALSE],
                         [ok |-> TRUE, p |-> <<0>>], body)
       IN IF Len(bytes) > 3 /\ bytes[1] = 27 /\ bytes[2] = 91 /\ bytes[Len(bytes)] = 109 THEN r
          ELSE [ok |-> FALSE, p |-> <<>>]

(* The predefined colours: bright foreground, default background, bold; or
   plain foreground, not bold, default background. *)
Names == <<"Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White">>
DarkNames == <<"DarkGray", "DarkRed", "DarkGree", "DarkYellow", "DarkBlue", "DarkMagenta", "DarkCyan", "DarkWhite">>
Named(n) ==
  CASE n = "ColorReset" -> <<0>>
    [] n = "DefaultForeGroundColor" -> <<39, 49, 1>>
    [] n = "DarkDefaultForeGroundColor" -> <<39, 22, 49>>
    [] \E k \in 1..8 : Names[k] = n -> <<29 + (CHOOSE k \in 1..8 : Names[k] = n), 49, 1>>
    [] OTHER -> <<29 + (CHOOSE k \in 1..8 : DarkNames[k] = n), 22, 49>>

(* Operations on two registers: o is [op, r, v, name]. *)
ColorStep(regs, o) ==
  LET q == 3 - o.r
  IN CASE o.op = "sgr"   -> [regs EXCEPT ![o.r] = o.v]                 \* SGR1 .. SGR4
       [] o.op = "none"  -> [regs EXCEPT ![o.r] = <<>>]                \* zero value
       [] o.op = "named" -> [regs EXCEPT ![o.r] = Named(o.name)]
       [] o.op = "add"   -> [regs EXCEPT ![o.r] = Append(@, o.v[1])]
       [] o.op = "chain" -> [regs EXCEPT ![o.r] = @ \o regs[q]]
=============================================================================
