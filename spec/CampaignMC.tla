----------------------------- MODULE CampaignMC -----------------------------
(* The campaign as a machine: an instrument whose state is the last parameter  *)
(* set, a photon list in the hands of the caller, a working copy.  Instruments *)
(* and analyses may modify the list they get in place, or not.  Checked for    *)
(* every list of parameter sets: each result belongs to its own setting, every *)
(* run starts from pristine photons, and a run depends on nothing before it.   *)
EXTENDS Campaign, FiniteSets, TLC
CONSTANTS MaxLen, MaxEn
Settings == {"a", "b", "reset"}
Lists == UNION { [1..n -> Settings] : n \in 0..MaxLen }
VARIABLES P, nE, en, pc, i, setting, caller, work, out, log
vars == << P, nE, en, pc, i, setting, caller, work, out, log >>
(* photon lists: the energy they were made for and what has been done to them *)
Fresh(k) == [en |-> k, done |-> << >>]
Init == /\ P \in Lists /\ nE \in 1..MaxEn
        /\ en = 0 /\ pc = "energy" /\ i = 1 /\ setting = "design"
        /\ caller = Fresh(0) /\ work = Fresh(0) /\ out = << >> /\ log = << >>
NextEnergy == /\ pc = "energy" /\ en < nE
              /\ en' = en + 1 /\ caller' = Fresh(en + 1) /\ i' = 1 /\ pc' = "wiggle"
              /\ log' = Append(log, << "generate", en + 1 >>)
              /\ UNCHANGED << P, nE, setting, work, out >>
Stop == /\ pc = "energy" /\ en = nE /\ pc' = "done"
        /\ UNCHANGED << P, nE, en, i, setting, caller, work, out, log >>
Wiggle == /\ pc = "wiggle"
          /\ IF i > Len(P) THEN pc' = "energy" /\ UNCHANGED << setting, log >>
             ELSE pc' = "trace" /\ setting' = P[i] /\ log' = Append(log, << "wiggle", P[i] >>)
          /\ UNCHANGED << P, nE, en, i, caller, work, out >>
Trace == /\ pc = "trace" /\ pc' = "analyze"
         /\ work' = [caller EXCEPT !.done = Append(@, setting)]     \* a copy is traced
         /\ log' = Append(log, << "trace", "" >>)
         /\ UNCHANGED << P, nE, en, i, setting, caller, out >>
Analyze == /\ pc = "analyze" /\ pc' = "wiggle" /\ i' = i + 1
           /\ out' = Append(out, [p |-> P[i], list |-> work])
           /\ \E mess \in BOOLEAN : work' = IF mess THEN [work EXCEPT !.done = Append(@, "mess")] ELSE work
           /\ log' = Append(log, << "analyze", "" >>)
           /\ UNCHANGED << P, nE, en, setting, caller >>
Next == NextEnergy \/ Stop \/ Wiggle \/ Trace \/ Analyze
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Pristine == caller.done = << >>
EachOnItsOwn == \A k \in DOMAIN out :
  /\ out[k].list.done = << out[k].p >>
  /\ out[k].p = P[((k - 1) % Len(P)) + 1]
  /\ out[k].list.en = ((k - 1) \div Len(P)) + 1
OncePerSetting == pc = "done" => Len(out) = nE * Len(P)
Order == log = SubSeq(EnergyCampaign([k \in 1..nE |-> k], P, << >>, << << "trace", "" >> >>, << >>), 1, Len(log))
Complete == pc = "done" => log = EnergyCampaign([k \in 1..nE |-> k], P, << >>, << << "trace", "" >> >>, << >>)
Finishes == <>(pc = "done")
=============================================================================
