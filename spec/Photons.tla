------------------------------ MODULE Photons ------------------------------
(***************************************************************************)
(* What any optical element may do to a photon.  A photon is a record      *)
(*   [pos, dir, pol: 4-vectors, en, prob: numbers, cols: name -> number]   *)
(* and an element is described by                                          *)
(*   surfs    the surfaces it consists of (see Surfaces)                   *)
(*   absorber TRUE if photons that miss the opening are lost (baffle)      *)
(*   idcol, id  column and number that mark photons that hit ("" = none)   *)
(*   moves    hit photons are recorded at the point they hit               *)
(*   neutral  the element does not act on polarization                     *)
(***************************************************************************)
EXTENDS Surfaces
Reached(el, b) == \E i \in DOMAIN el.surfs : Hit(el.surfs[i], XYZ(b.pos), XYZ(b.dir))
Decided(el, b) == \A i \in DOMAIN el.surfs : Robust(el.surfs[i], XYZ(b.pos), XYZ(b.dir))
SameV(a, b) == a = b
OldCols(b, a) == \A c \in DOMAIN b.cols : c \in DOMAIN a.cols /\ a.cols[c] = b.cols[c]
Undefined(kind, v) == IF kind = "i" THEN v = I(-1) ELSE IF kind = "f" THEN IsNaN(v) ELSE TRUE
NewCols(b, a) == DOMAIN a.cols \ DOMAIN b.cols

(* --- a photon that is not reached ---------------------------------------- *)
Untouched(el, b, a) ==
    /\ a.pos = b.pos /\ a.dir = b.dir /\ a.pol = b.pol /\ a.en = b.en
    /\ (IF el.absorber THEN a.prob = Zero ELSE a.prob = b.prob)
    /\ OldCols(b, a)
MissMarks(el, b, a, kinds) == \A c \in NewCols(b, a) : Undefined(kinds[c], a.cols[c])

(* --- a photon that is reached --------------------------------------------- *)
AtHitPoint(el, b, a) ==
    \E i \in DOMAIN el.surfs :
        /\ Hit(el.surfs[i], XYZ(b.pos), XYZ(b.dir))
        /\ VNear(XYZ(a.pos), HitPoint(el.surfs[i], XYZ(b.pos), XYZ(b.dir)),
                 Mul(E6, Add(One, Abs(HitT(el.surfs[i], XYZ(b.pos), XYZ(b.dir))))))
CarriesId(el, a) == el.idcol = "" \/ (el.idcol \in DOMAIN a.cols /\ a.cols[el.idcol] = el.id)

(* --- probabilities ----------------------------------------------------------- *)
InRange(p) == Le(Zero, p) /\ Le(p, One)
Shrinks(b, a) == Le(Zero, a.prob) /\ Le(a.prob, b.prob)
(* the factor does not depend on the probability the photon came with *)
SameFactor(b1, a1, b2, a2) == Near(Mul(a1.prob, b2.prob), Mul(a2.prob, b1.prob), E12)

(* --- geometry of direction and polarization ------------------------------------ *)
GoodDir(a) == IsUnit(XYZ(a.dir), E8) /\ a.dir[4] = Zero
GoodPos(a) == Near(a.pos[4], One, E10) /\ Finite3(XYZ(a.pos))
SamePolLength(b, a) == Near(Norm2(XYZ(a.pol)), Norm2(XYZ(b.pol)), E7) /\ a.pol[4] = Zero
Transverse(a) == Near(Dot(XYZ(a.pol), XYZ(a.dir)), Zero, E7)
Carried(b, a) ==
    LET n == Cross(XYZ(b.dir), XYZ(a.dir))
    IN  IF Lt(Norm2(n), E12) THEN VNear(XYZ(a.pol), XYZ(b.pol), E5)
        ELSE Near(Dot(n, XYZ(a.pol)), Dot(n, XYZ(b.pol)), E8)
=============================================================================
