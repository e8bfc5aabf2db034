-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* Key bindings (C11): the key maps of two editors and the global one; key *)
(* and command names; default bindings.  Keys and names are sequences of   *)
(* bytes, commands are named by strings.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdTab == [c \in {SubSeq(Printable, k, k) : k \in 1..Len(Printable)} |->
             31 + (CHOOSE k \in 1..Len(Printable) : SubSeq(Printable, k, k) = c)]
ASSUME TLCSet(6, TLCEval(OrdTab))
Bytes(str) == [k \in 1..Len(str) |-> TLCGet(6)[SubSeq(str, k, k)]]

Esc(str) == <<27>> \o Bytes(str)
Letters == "abcdefghijklmnopqrstuvwxyz"
Caps    == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

(* Names of keys: C_x is Ctrl with a letter, M_x is Alt (ESC and the letter). *)
KeyList ==
  [k \in 1..26 |-> <<"C_" \o SubSeq(Caps, k, k), <<k>>>>] \o
  [k \in 1..26 |-> <<"M_" \o SubSeq(Caps, k, k), Esc(SubSeq(Letters, k, k))>>] \o
  << <<"C_[", <<27>>>>, <<"C_\\", <<28>>>>, <<"C_]", <<29>>>>, <<"C_^", <<30>>>>, <<"C_UNDERBAR", <<31>>>>,
     <<"BACKSPACE", <<127>>>>, <<"M_BACKSPACE", <<27, 8>>>>, <<"M_OEM_2", Esc("/")>>,
     <<"CTRL_BREAK", <<3>>>>, <<"ENTER", <<13>>>>, <<"ESCAPE", <<27>>>>,
     <<"UP", Esc("[A")>>, <<"DOWN", Esc("[B")>>, <<"RIGHT", Esc("[C")>>, <<"LEFT", Esc("[D")>>,
     <<"C_UP", Esc("[1;5A")>>, <<"CTRL_DOWN", Esc("[1;5B")>>, <<"C_RIGHT", Esc("[1;5C")>>, <<"C_LEFT", Esc("[1;5D")>>,
     <<"HOME", Esc("[H")>>, <<"END", Esc("[F")>>, <<"PAGEUP", Esc("[5~")>>, <<"PAGEDOWN", Esc("[6~")>>, <<"DELETE", Esc("[3~")>>,
     \* as go-tty reports them
     <<"F1", Esc("[OP")>>, <<"F2", Esc("[OQ")>>, <<"F3", Esc("[OR")>>, <<"F4", Esc("[OS")>>,
     <<"F5", Esc("[15~")>>, <<"F6", Esc("[16~")>>, <<"F7", Esc("[17~")>>, <<"F8", Esc("[18~")>>,
     <<"F9", Esc("[20~")>>, <<"F10", Esc("[21~")>>, <<"F11", Esc("[23~")>>, <<"F12", Esc("[24~")>> >>

(* Names of keys that terminals have no code for: they must not stand for  *)
(* another key.                                                            *)
NoCode == {"F13", "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "F22", "F23", "F24", "CTRL", "CLEAR", "PAUSE"}

CmdList == <<"ACCEPT_LINE", "INTR", "BEGINNING_OF_LINE", "BACKWARD_CHAR", "END_OF_LINE", "FORWARD_CHAR",
  "BACKWARD_DELETE_CHAR", "DELETE_CHAR", "DELETE_OR_ABORT", "KILL_LINE", "KILL_WHOLE_LINE", "UNIX_WORD_RUBOUT",
  "UNIX_LINE_DISCARD", "CLEAR_SCREEN", "REPAINT_ON_NEWLINE", "QUOTED_INSERT", "YANK", "YANK_WITH_QUOTE", "SWAPCHAR",
  "BACKWARD_WORD", "FORWARD_WORD", "UNDO", "PREVIOUS_HISTORY", "NEXT_HISTORY", "ISEARCH_BACKWARD">>

(* The documented Emacs-like bindings. *)
DefaultList ==
  << <<"M_B", "BACKWARD_WORD">>, <<"M_F", "FORWARD_WORD">>, <<"M_V", "YANK">>, <<"M_Y", "YANK_WITH_QUOTE">>,
     <<"BACKSPACE", "BACKWARD_DELETE_CHAR">>, <<"C_A", "BEGINNING_OF_LINE">>, <<"C_B", "BACKWARD_CHAR">>, <<"C_C", "INTR">>,
     <<"C_D", "DELETE_OR_ABORT">>, <<"C_E", "END_OF_LINE">>, <<"C_F", "FORWARD_CHAR">>, <<"C_H", "BACKWARD_DELETE_CHAR">>,
     <<"C_K", "KILL_LINE">>, <<"C_L", "CLEAR_SCREEN">>, <<"C_LEFT", "BACKWARD_WORD">>, <<"C_M", "ACCEPT_LINE">>,
     <<"C_N", "NEXT_HISTORY">>, <<"C_P", "PREVIOUS_HISTORY">>, <<"C_Q", "QUOTED_INSERT">>, <<"C_R", "ISEARCH_BACKWARD">>,
     <<"C_RIGHT", "FORWARD_WORD">>, <<"C_T", "SWAPCHAR">>, <<"C_U", "UNIX_LINE_DISCARD">>, <<"C_UNDERBAR", "UNDO">>,
     <<"C_V", "QUOTED_INSERT">>, <<"C_W", "UNIX_WORD_RUBOUT">>, <<"C_Y", "YANK">>, <<"C_Z", "UNDO">>, <<"DELETE", "DELETE_CHAR">>,
     <<"DOWN", "NEXT_HISTORY">>, <<"END", "END_OF_LINE">>, <<"ESCAPE", "KILL_WHOLE_LINE">>, <<"HOME", "BEGINNING_OF_LINE">>,
     <<"LEFT", "BACKWARD_CHAR">>, <<"RIGHT", "FORWARD_CHAR">>, <<"UP", "PREVIOUS_HISTORY">> >>

(* The tables by bytes, computed once. *)
ASSUME TLCSet(7, TLCEval([n \in {Bytes(p[1]) : p \in Range(KeyList)} |->
                     (CHOOSE p \in Range(KeyList) : Bytes(p[1]) = n)[2]]))
ASSUME TLCSet(8, TLCEval([n \in {Bytes(c) : c \in Range(CmdList)} |-> CHOOSE c \in Range(CmdList) : Bytes(c) = n]))
ASSUME TLCSet(9, TLCEval([k \in {TLCGet(7)[Bytes(d[1])] : d \in Range(DefaultList)} |->
                     (CHOOSE d \in Range(DefaultList) : TLCGet(7)[Bytes(d[1])] = k)[2]]))
ASSUME TLCSet(10, TLCEval({Bytes(n) : n \in NoCode}))
KeyCode   == TLCGet(7)      \* normalised name -> code
CmdNamed  == TLCGet(8)      \* normalised name -> command
Defaults  == TLCGet(9)      \* code -> command
NoCodes   == TLCGet(10)

Norm(n) == [k \in 1..Len(n) |-> IF n[k] \in 97..122 THEN n[k] - 32 ELSE IF n[k] = 45 THEN 95 ELSE n[k]]

(***************************************************************************)
(* State: a function from codes to commands for each map (1 and 2: the     *)
(* editors, 3: global).                                                    *)
(***************************************************************************)
Empty == [k \in {} |-> ""]
Start == <<Empty, Empty, Defaults>>

Put(f, k, c) == IF c = "" THEN [x \in DOMAIN f \ {k} |-> f[x]]
                ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN c ELSE f[x]]

(* o: op, m (map), key (code or name), cmd (command, "" is nil), fname     *)
(* (name of a command).  Result: maps, err.                                *)
BindStep(st, o) ==
  LET code == IF o.op = "code" THEN o.key
              ELSE IF Norm(o.key) \in DOMAIN KeyCode THEN KeyCode[Norm(o.key)] ELSE <<>>
      known == o.op = "code" \/ Norm(o.key) \in DOMAIN KeyCode
      nocode == o.op # "code" /\ Norm(o.key) \in NoCodes
      cmd == IF o.op = "symbol"
             THEN IF Norm(o.fname) \in DOMAIN CmdNamed THEN CmdNamed[Norm(o.fname)] ELSE "?"
             ELSE o.cmd
  IN CASE o.op = "getfunc" -> [s |-> st, err |-> Norm(o.fname) \notin DOMAIN CmdNamed]
       [] o.op \in {"press", "look"} -> [s |-> st, err |-> FALSE]
       [] cmd = "?"  -> [s |-> st, err |-> TRUE]
       [] nocode     -> [s |-> st, err |-> FALSE]
       [] ~known     -> [s |-> st, err |-> TRUE]
       [] OTHER      -> [s |-> [st EXCEPT ![o.m] = Put(@, code, cmd)], err |-> FALSE]

Look(st, m, k) == IF k \in DOMAIN st[m] THEN st[m][k]
                  ELSE IF k \in DOMAIN st[3] THEN st[3][k]
                  ELSE ""                              \* inserted
=============================================================================
