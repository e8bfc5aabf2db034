---------------------------- MODULE ResizeTrace ----------------------------
(***************************************************************************)
(* Reads made with and without resize notifications from another goroutine *)
(* under the race detector: the same result, and no access of the two that *)
(* is not ordered (NoRace of module Resize).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.TRACES))

BeginT(tr) == 0
JudgeT(tr, s, e) ==
  [s   |-> s + 1,
   bad |-> UNION { IF e.res # e.ref \/ e.err # e.rerr THEN {<<"C09", "result">>} ELSE {},
                   IF e.races # 0 THEN {<<"C09", "data-race">>} ELSE {} }]

VARIABLES t, i, s
INSTANCE Loop WITH Begin <- BeginT, Judge <- JudgeT
=============================================================================
