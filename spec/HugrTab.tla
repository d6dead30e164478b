------------------------------- MODULE HugrTab -------------------------------
(* The table of types that traces refer to by number.                         *)
CONSTANT Types
=============================================================================
