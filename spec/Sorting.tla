------------------------------- MODULE Sorting -------------------------------
(***************************************************************************)
(* Order sorting.  Orders that fall on the same place of the detector are   *)
(* told apart by the energy the detector measures.  A window of energies is *)
(* assigned to an order; the factor of an (extracted, true) pair of orders  *)
(* is the share of the detector response to photons of the true order in    *)
(* the window of the extracted order.                                       *)
(*                                                                         *)
(* A file of effective areas carries the area and the factor that was       *)
(* applied last; applying another one undoes that first.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
SameSide(a, b) == (a > 0 /\ b > 0) \/ (a < 0 /\ b < 0)
(* what bulk application writes: extracted order, true order *)
Wanted(orders, offsets, available) ==
    {<< o, m >> \in orders \X available : (\E t \in offsets : m = o + t) /\ SameSide(o, m)}
=============================================================================
