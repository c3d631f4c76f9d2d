------------------------------ MODULE Responses ------------------------------
(***************************************************************************)
(* Redistribution matrices in compressed storage.                           *)
(*                                                                         *)
(* A row of a matrix is a sequence over the channels.  Only the entries     *)
(* that are kept (above the threshold) are stored, as groups of adjacent    *)
(* channels: number of groups, first channel and number of channels of      *)
(* each, and the entries one after the other.  Channels are counted from    *)
(* the first channel number of the instrument.  In fixed-length storage     *)
(* every row is padded to the same length.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
RECURSIVE Runs(_, _, _)
(* starts and lengths of the runs of TRUE in a sequence k of BOOLEAN *)
Runs(k, i, from) ==
    IF i > Len(k) THEN (IF from = 0 THEN << >> ELSE << << from, i - from >> >>)
    ELSE IF k[i] THEN Runs(k, i + 1, IF from = 0 THEN i ELSE from)
    ELSE IF from = 0 THEN Runs(k, i + 1, 0)
    ELSE << << from, i - from >> >> \o Runs(k, i + 1, 0)
RECURSIVE Kept(_, _, _)
Kept(row, k, i) == IF i > Len(row) THEN << >> ELSE (IF k[i] THEN << row[i] >> ELSE << >>) \o Kept(row, k, i + 1)
Compress(row, k, first) ==
    LET g == Runs(k, 1, 0)
    IN  [n |-> Len(g), f |-> SubSeq([i \in 1..Len(g) |-> g[i][1] - 1 + first], 1, Len(g)),
         c |-> SubSeq([i \in 1..Len(g) |-> g[i][2]], 1, Len(g)), m |-> Kept(row, k, 1)]
(* the row with the entries below the threshold set to zero *)
Cut(row, k, zero) == SubSeq([i \in 1..Len(row) |-> IF k[i] THEN row[i] ELSE zero], 1, Len(row))
(* expanding uses only the first n groups and as many entries as these groups hold *)
RECURSIVE Before(_, _)
Before(c, g) == IF g = 1 THEN 0 ELSE c[g - 1] + Before(c, g - 1)
Expand(z, len, first, zero) ==
    LET At(i) == {g \in 1..z.n : z.f[g] - first < i /\ i <= z.f[g] - first + z.c[g]}
    IN  SubSeq([i \in 1..len |-> IF At(i) = {} THEN zero
                               ELSE LET g == CHOOSE g \in At(i) : TRUE IN z.m[Before(z.c, g) + i - (z.f[g] - first)]], 1, len)
Pad(q, n, zero) == SubSeq([i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE zero], 1, n)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Fixed(M, zero) ==
    LET ng == MaxOf({1} \cup {M[r].n : r \in DOMAIN M})
        nm == MaxOf({0} \cup {Len(M[r].m) : r \in DOMAIN M})
    IN  SubSeq([r \in 1..Len(M) |-> [M[r] EXCEPT !.f = Pad(@, ng, 0), !.c = Pad(@, ng, 0), !.m = Pad(@, nm, zero)]], 1, Len(M))
(* groups are as large as possible, ordered and do not touch *)
Maximal(z) == /\ Len(z.f) = z.n /\ Len(z.c) = z.n
              /\ \A g \in 1..z.n : z.c[g] > 0
              /\ \A g \in 1..z.n - 1 : z.f[g + 1] > z.f[g] + z.c[g]
Wanted(M, z, first, len, zero) == \A r \in DOMAIN M : Expand(z[r], len, first, zero) = M[r]
=============================================================================
