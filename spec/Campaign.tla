------------------------------ MODULE Campaign ------------------------------
(* What a tolerance campaign does, seen from the callables it is given:        *)
(*   wiggle(p)   the tool is called with parameter set p                       *)
(*   trace(in)   the instrument gets a photon list                             *)
(*   analyze     the analysis gets the list the instrument returned            *)
(* With several energies, per energy: generate, before, and then the above.    *)
EXTENDS Integers, Sequences
RECURSIVE Runs(_, _, _)
(* parts: the calls that make up one run through the instrument *)
Runs(P, parts, i) == IF i > Len(P) THEN << >>
              ELSE << << "wiggle", P[i] >> >> \o parts \o << << "analyze", "" >> >> \o Runs(P, parts, i + 1)
RECURSIVE PerEnergy(_, _, _, _, _)
PerEnergy(E, P, before, parts, k) ==
  IF k > Len(E) THEN << >>
  ELSE << << "generate", E[k] >> >> \o before \o Runs(P, parts, 1) \o PerEnergy(E, P, before, parts, k + 1)
Campaign(P, parts) == Runs(P, parts, 1)
EnergyCampaign(E, P, before, parts, reset) == PerEnergy(E, P, before, parts, 1) \o reset
=============================================================================
