---------------------------- MODULE ContainersGen ----------------------------
(* The trees of ContainersMC, for the code to run. *)
EXTENDS ContainersMC, Json
GNext == FALSE /\ UNCHANGED vars
Tell == (tree.k = "seq") => PrintT("@B " \o ToJson(tree))
=============================================================================
