------------------------------- MODULE MCSim -------------------------------
(* Random behaviours (TLC simulation), with the choices taken from the environment. *)
EXTENDS Sim
FamSeq == CASE IOEnv.FAM = "" -> <<>> [] IOEnv.FAM = "a,b" -> <<"a", "b">> [] OTHER -> <<IOEnv.FAM>>
NoMenu(st) == {}
TheFocus == {IOEnv.FOCUS}
Alternatives == IOEnv.ALTS = "1"
=============================================================================
