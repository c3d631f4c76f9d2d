---------------------------- MODULE PlacementMC ----------------------------
(* A group of two members and a single element under every history of the      *)
(* misalignment tools, exactly as the tools store them: each tool overwrites    *)
(* one setting and places the members again.  The invariants say what a user    *)
(* sees: only the last call of each tool counts, resetting restores the design, *)
(* member rotations are about member centres, group rotations about the group,  *)
(* and moving the reference point moves nothing.                                *)
EXTENDS Placement, TLC
CONSTANTS MaxCalls, MaxMoves
VARIABLES g, placed, elem, orig, moved, last, calls, moves
vars == << g, placed, elem, orig, moved, last, calls, moves >>
T(x, y, z) == Transl(<< I(x), I(y), I(z) >>)
QX == RotX(Zero, One)
QZ == RotZ(Zero, One)
Disp == { Id4, T(1, 0, 0), QX, MM(T(0, 2, 0), QZ) }
Shifts == { T(0, 3, 0), T(-1, 0, 2) }
GPos == { T(5, 0, 0), MM(T(1, 2, 3), QZ), MM(T(0, 0, 1), MM(QX, Diag4(<<One, I(2), I(4)>>))) }
Design(p) == [pos |-> p, unc |-> Id4, sig |-> << Id4, Id4 >>,
              e |-> << MM(T(0, 4, 0), QX), MM(T(0, -4, 1), Diag4(<<I(2), One, One>>)) >>,
              c |-> << QZ, MM(T(1, 0, 0), Diag4(<<One, One, I(2)>>)) >>]
E0 == MM(T(7, 1, 0), QZ)
Init == \E p \in GPos :
  /\ g = Design(p) /\ placed = Members(Design(p))
  /\ elem = E0 /\ orig = Id4 /\ moved = FALSE
  /\ last = [unc |-> Id4, sig |-> << Id4, Id4 >>, mv |-> Id4, nom |-> Design(p)]
  /\ calls = 0 /\ moves = 0
Put(h) == /\ g' = h /\ placed' = Members(h)
Count == /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED moves
MoveGlobalBy(v) ==
    /\ Count 
    /\ Put([g EXCEPT !.unc = v])
    /\ last' = [last EXCEPT !.unc = v] /\ UNCHANGED << elem, orig, moved >>
MoveIndividualBy(v) ==
    /\ Count
    /\ Put([g EXCEPT !.sig = << v, v >>])
    /\ last' = [last EXCEPT !.sig = << v, v >>] /\ UNCHANGED << elem, orig, moved >>
WiggleBy(v, w) ==
    /\ Count
    /\ Put([g EXCEPT !.sig = << v, w >>])
    /\ last' = [last EXCEPT !.sig = << v, w >>] /\ UNCHANGED << elem, orig, moved >>
MoveElemBy(v) ==
    /\ Count
    /\ orig' = IF moved THEN orig ELSE elem
    /\ elem' = MM(v, orig') /\ moved' = TRUE
    /\ last' = [last EXCEPT !.mv = v] /\ UNCHANGED << g, placed >>
(* the reference point is moved on the aligned instrument *)
MoveCenterBy(c) ==
    /\ moves < MaxMoves /\ moves' = moves + 1 /\ UNCHANGED calls
    /\ g.unc = Id4 /\ g.sig = << Id4, Id4 >>
    /\ Put(Recentred(g, c)) /\ UNCHANGED << elem, orig, moved >>
    /\ last' = [last EXCEPT !.nom = Recentred(last.nom, c)]
Next == \/ \E v \in Disp : MoveGlobalBy(v) \/ MoveIndividualBy(v) \/ MoveElemBy(v)
        \/ \E v \in Disp, w \in Disp : WiggleBy(v, w)
        \/ \E c \in Shifts : MoveCenterBy(c)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
LastCallCounts ==
  /\ placed = Members([last.nom EXCEPT !.unc = last.unc, !.sig = last.sig])
  /\ elem = MM(last.mv, E0)
Reset == (last.unc = Id4 /\ last.sig = << Id4, Id4 >>) => placed = Members(last.nom)
MovingTheCentreMovesNothing == [][moves' # moves => placed' = placed]_vars
(* a turn of one member alone leaves its centre where it was *)
AboutItsCentre ==
  \A i \in 1..2 : LET plain == Members([g EXCEPT !.sig = << Id4, Id4 >>])
                  IN TransPart(placed[i]) = TransPart(Member([g EXCEPT !.sig[i] = Shift(g.sig[i])], i))
(* a turn of the group leaves the reference point, and distances between members *)
Dist2(ms) == Norm2(VSub(TransPart(ms[1]), TransPart(ms[2])))
GroupRigid ==
  LET f == [g EXCEPT !.pos = MM(Shift(g.pos), Rot(g.pos))]
      h == [f EXCEPT !.unc = Id4]
  IN Dist2(Members(f)) = Dist2(Members(h))
(* member misalignments do not touch the other member *)
Independent == \A i \in 1..2 : placed[i] = Member([g EXCEPT !.sig = [j \in 1..2 |-> IF j = i THEN g.sig[i] ELSE Id4]], i)
=============================================================================
