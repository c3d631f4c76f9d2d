---------------------------- MODULE CampaignGen ----------------------------
(* Campaigns: parameter sets, number of energies, and which analyses spoil the list they get. *)
EXTENDS CampaignMC, Json
VARIABLE mess
GInit == Init /\ mess = << >>
GNext == Next /\ mess' = IF pc = "analyze" THEN Append(mess, work' # work) ELSE mess
Tell == pc = "done" => PrintT("@B " \o ToJson([p |-> P, n |-> nE, mess |-> mess]))
=============================================================================
