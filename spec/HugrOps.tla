------------------------------ MODULE HugrOps ------------------------------
(* The operations of a HUGR: for each kind of operation, the ports its nodes *)
(* have, in order, with their kinds and types.  Types, operations and        *)
(* constants are given as tables (sequences); an operation is an index.      *)
EXTENDS HugrTab, Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Ops, Vals

K(o) == Ops[o].k

(* Value input / output types *)
ValIn(o) ==
  LET r == Ops[o] IN
  CASE r.k \in {"Output", "Call", "DFG", "CFG", "Ext", "Opaque"} -> r.i
    [] r.k = "CallIndirect" -> <<r.fty>> \o r.fi
    [] r.k = "Tag" -> IF r.tag + 1 \in DOMAIN r.rows THEN r.rows[r.tag + 1] ELSE <<>>
    [] r.k = "TailLoop" -> r.ji \o r.rest
    [] r.k = "Conditional" -> <<r.ty>> \o r.oi
    [] OTHER -> <<>>
ValOut(o) ==
  LET r == Ops[o] IN
  CASE r.k \in {"Input", "Call", "DFG", "CFG", "Ext", "Opaque"} -> r.o
    [] r.k = "CallIndirect" -> r.fo
    [] r.k = "LoadConstant" -> <<r.ty>>
    [] r.k = "LoadFunction" -> <<r.fty>>
    [] r.k = "Tag" -> <<r.ty>>
    [] r.k = "TailLoop" -> r.jo \o r.rest
    [] r.k = "Conditional" -> r.oo
    [] OTHER -> <<>>
(* Static ports: <<>> or one <<kind, type>> *)
StaticIn(o) ==
  LET r == Ops[o] IN
  CASE r.k \in {"Call", "LoadFunction"} -> << <<"func", r.poly>> >>
    [] r.k = "LoadConstant" -> << <<"const", r.ty>> >>
    [] OTHER -> <<>>
StaticOut(o) ==
  LET r == Ops[o] IN
  CASE r.k \in {"FuncDefn", "FuncDecl"} -> << <<"func", r.poly>> >>
    [] r.k = "Const" -> << <<"const", r.ty>> >>
    [] OTHER -> <<>>
DataflowKinds == {"Input", "Output", "Call", "CallIndirect", "LoadConstant", "LoadFunction", "DFG", "CFG",
                  "Ext", "Opaque", "Tag", "TailLoop", "Conditional"}
(* Other (order or control-flow) ports: a sequence of kinds *)
OtherIn(o) ==
  CASE K(o) \in DataflowKinds \ {"Input"} -> <<"order">>
    [] K(o) \in {"Block", "Exit"} -> <<"cf">>
    [] OTHER -> <<>>
OtherOut(o) ==
  CASE K(o) \in DataflowKinds \ {"Output"} -> <<"order">>
    [] K(o) = "Block" -> [i \in 1..Len(Ops[o].rows) |-> "cf"]
    [] OTHER -> <<>>
(* All ports in order, as <<kind, type>> (type 0 for order / control flow) *)
InPorts(o)  == [i \in 1..Len(ValIn(o))  |-> <<"value", ValIn(o)[i]>>]  \o StaticIn(o)  \o [i \in 1..Len(OtherIn(o))  |-> <<OtherIn(o)[i], 0>>]
OutPorts(o) == [i \in 1..Len(ValOut(o)) |-> <<"value", ValOut(o)[i]>>] \o StaticOut(o) \o [i \in 1..Len(OtherOut(o)) |-> <<OtherOut(o)[i], 0>>]
NumIn(o)  == Len(ValIn(o))  + Len(StaticIn(o))  + Len(OtherIn(o))
NumOut(o) == Len(ValOut(o)) + Len(StaticOut(o)) + Len(OtherOut(o))
(* Offsets (0-based) of the distinguished ports, -1 if absent *)
StaticInOff(o)  == IF StaticIn(o)  = <<>> THEN -1 ELSE Len(ValIn(o))
StaticOutOff(o) == IF StaticOut(o) = <<>> THEN -1 ELSE Len(ValOut(o))
OtherInOff(o)   == IF OtherIn(o)  = <<>> THEN -1 ELSE Len(ValIn(o))  + Len(StaticIn(o))
OtherOutOff(o)  == IF OtherOut(o) = <<>> THEN -1 ELSE Len(ValOut(o)) + Len(StaticOut(o))

DataflowParents == {"DFG", "FuncDefn", "Case", "Block", "TailLoop"}
Containers == DataflowParents \cup {"Module", "CFG", "Conditional"}
=============================================================================
