---------------------------- MODULE AnalysisGen ----------------------------
(* Histories of a photon list: sent, lost, deselected, rows swapped. *)
EXTENDS AnalysisMC, Json
VARIABLE log
GInit == Init /\ log = << >>
Say(r) == log' = Append(log, r)
GNext == \/ \E k \in {1, 2, 4}, o \in Ords : Send(Q(k, 4), o) /\ Say([op |-> "send", p |-> k, o |-> o])
         \/ \E i \in DOMAIN ph.prob : (Lose(i) /\ Say([op |-> "lose", i |-> i])) \/ (Deselect(i) /\ Say([op |-> "deselect", i |-> i]))
         \/ \E i \in 1..(Len(ph.prob) - 1) : Swap(i) /\ Say([op |-> "swap", i |-> i])
Tell == Len(log) = 8 => PrintT("@B " \o ToJson(log))
Short == Len(log) < 8
=============================================================================
