----------------------------- MODULE Provenance -----------------------------
(***************************************************************************)
(* Headers of photon lists are functions from keywords to values.  A tag    *)
(* carries the values given at setup; used on a list it adds the date, the  *)
(* values of setup, the version of the program, and the values given in the *)
(* call, later ones winning.  Two headers agree on keywords K if every one  *)
(* is in both with one value, or, if missing ones are allowed, in neither.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Tag(head, date, setup, version, call) == Over(Over(Over(Over(head, date), setup), version), call)
AgreeOn(a, b, k) == k \in DOMAIN a /\ k \in DOMAIN b /\ a[k] = b[k]
Neither(a, b, k) == k \notin DOMAIN a /\ k \notin DOMAIN b
Accept(a, b, K, missing) == \A k \in K : AgreeOn(a, b, k) \/ (missing /\ Neither(a, b, k))
(* keyword after keyword, as a program does it *)
RECURSIVE Walk(_, _, _, _, _)
Walk(a, b, ks, missing, i) ==
    IF i > Len(ks) THEN TRUE
    ELSE IF ks[i] \in DOMAIN a /\ ks[i] \in DOMAIN b THEN a[ks[i]] = b[ks[i]] /\ Walk(a, b, ks, missing, i + 1)
    ELSE missing /\ Neither(a, b, ks[i]) /\ Walk(a, b, ks, missing, i + 1)
=============================================================================
