---------------------------- MODULE ResponsesGen ----------------------------
(* The matrices of ResponsesMC, for the code to store. *)
EXTENDS ResponsesMC, Json
Tell == phase = "variable" => PrintT("@B " \o ToJson([full |-> full, first |-> first]))
=============================================================================
