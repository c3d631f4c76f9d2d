---------------------------- MODULE PlacementGen ----------------------------
(* Histories of PlacementMC, told to the code call by call.  Displacements are *)
(* given as the six numbers a user passes to the tools (angles in quarters of  *)
(* a turn).                                                                     *)
EXTENDS PlacementMC, Json
VARIABLE log
Six == [none |-> << 0, 0, 0, 0, 0, 0 >>, x |-> << 1, 0, 0, 0, 0, 0 >>, rx |-> << 0, 0, 0, 1, 0, 0 >>, yz |-> << 0, 2, 0, 0, 0, 1 >>]
Named == [none |-> Id4, x |-> T(1, 0, 0), rx |-> QX, yz |-> MM(T(0, 2, 0), QZ)]
ASSUME { Named[k] : k \in DOMAIN Named } = Disp
Moved == [up |-> << 0, 3, 0 >>, off |-> << -1, 0, 2 >>]
MovedM == [k \in DOMAIN Moved |-> T(Moved[k][1], Moved[k][2], Moved[k][3])]
ASSUME { MovedM[k] : k \in DOMAIN MovedM } = Shifts
GInit == Init /\ g = Design(T(5, 0, 0)) /\ log = << >>
Say(op, v, w) == log' = Append(log, [op |-> op, v |-> v, w |-> w])
GNext == \/ \E k \in DOMAIN Six : LET v == Named[k] IN
              \/ MoveGlobalBy(v) /\ Say("moveglobal", Six[k], Six[k])
              \/ MoveIndividualBy(v) /\ Say("moveindividual", Six[k], Six[k])
              \/ MoveElemBy(v) /\ Say("moveelem", Six[k], Six[k])
         \/ \E k \in DOMAIN Six, j \in DOMAIN Six : k # j /\ WiggleBy(Named[k], Named[j]) /\ Say("wiggle", Six[k], Six[j])
         \/ \E k \in DOMAIN Moved : MoveCenterBy(MovedM[k]) /\ Say("center", Moved[k], Moved[k])
Tell == calls = MaxCalls => PrintT("@B " \o ToJson(log))
=============================================================================
