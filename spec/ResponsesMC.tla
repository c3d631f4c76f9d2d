----------------------------- MODULE ResponsesMC -----------------------------
(* All small matrices, thresholds and first channels, through every form of     *)
(* storage.  Designs that ignore the first channel, that use the padding, or    *)
(* that store the entries below the threshold in the gaps are told apart.       *)
EXTENDS Responses, TLC
CONSTANTS Chan, NRow, Vals, Firsts
VARIABLES full, first, store, phase
vars == << full, first, store, phase >>
Keep(row) == SubSeq([i \in 1..Len(row) |-> row[i] > 1], 1, Len(row))
CutM(M) == SubSeq([r \in 1..Len(M) |-> Cut(M[r], Keep(M[r]), 0)], 1, Len(M))
Comp(M, f) == SubSeq([r \in 1..Len(M) |-> Compress(M[r], Keep(M[r]), f)], 1, Len(M))
Init == /\ full \in [1..NRow -> [1..Chan -> Vals]] /\ first \in Firsts
        /\ store = Comp(full, first) /\ phase = "variable"
Next == \/ phase = "variable" /\ phase' = "fixed" /\ store' = Fixed(store, 0) /\ UNCHANGED << full, first >>
        \/ phase = "fixed" /\ phase' = "file" /\ store' = Fixed(store, 0) /\ UNCHANGED << full, first >>
ExpandOK == Wanted(CutM(full), store, first, Chan, 0)
MaximalOK == phase = "variable" => \A r \in DOMAIN store : Maximal(store[r])
(* wrong designs *)
Empty(M) == \A r \in DOMAIN M : \A i \in DOMAIN M[r] : M[r][i] = 0
WithPadding(z) == [z EXCEPT !.n = Len(z.f)]
FirstMatters == (~Empty(CutM(full)) /\ first > 0) =>
    ~Wanted(CutM(full), [r \in DOMAIN store |-> [store[r] EXCEPT !.f = [g \in DOMAIN @ |-> @[g] + 1]]], first, Chan, 0)
=============================================================================
