------------------------------ MODULE Report ------------------------------
(* Output conventions shared by the trace specifications: every rejected    *)
(* step is printed, so that one run reports all of them.                    *)
EXTENDS TLC, Json, Sequences, Integers
SetSeq(S) == LET RECURSIVE f(_)
                 f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x})
             IN f(S)
Fail(id, at, ev, what) == PrintT("FAIL " \o ToJson([id |-> id, at |-> at, ev |-> ev, what |-> SetSeq(what)]))
DoneMsg(n) == PrintT("DONE " \o ToJson([n |-> n]))
=============================================================================
