-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* Validation of recorded executions: every trace of the file TRACES is an *)
(* initial state, every logged event a step.  Begin gives the state of the *)
(* specification before the first event, Judge its state after an event    *)
(* and the set of disagreements <<property, what>> with the log.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Begin(_),         \* trace -> state
          Judge(_, _, _)    \* trace, state, event -> [s, bad]

VARIABLES t, i, s
vars == <<t, i, s>>

TraceFile == TLCGet(3)      \* loaded by an assumption of the instantiating module

Init == /\ t \in 1..Len(TraceFile)
        /\ i = 0
        /\ s = Begin(TraceFile[t])

Next ==
  /\ i < Len(TraceFile[t].ev)
  /\ LET tr == TraceFile[t]
         e  == tr.ev[i + 1]
         j  == IF e.fail = "" THEN Judge(tr, s, e)
               ELSE [s |-> s, bad |-> {<<"any", e.fail>>}]     \* it panicked or did not end
     IN /\ s' = j.s
        /\ IF j.bad = {} THEN TRUE
           ELSE PrintT("BAD " \o ToJson([id |-> tr.id, ev |-> i + 1, hit |-> j.bad]))
  /\ i' = i + 1
  /\ t' = t

View == <<t, i>>

Spec == Init /\ [][Next]_vars
=============================================================================
