----------------------------- MODULE PhotonsMC -----------------------------
(* A small instrument as a state machine: photons pass elements that may     *)
(* miss, filter, absorb, turn or number them.  Checks that the clauses of     *)
(* Photons are what such steps obey (they admit every legal step) and that    *)
(* they imply the global guarantees over any chain of steps.                   *)
EXTENDS Photons, TLC, FiniteSets
CONSTANT MaxSteps
VARIABLES ph, p0, n, hist
vars == << ph, p0, n, hist >>
Vx == <<One, Zero, Zero, Zero>>
Dirs == { <<One, Zero, Zero, Zero>>, <<Q(3,5), Q(4,5), Zero, Zero>> }
PolOf(d) == IF d = Vx THEN <<Zero, One, Zero, Zero>> ELSE <<Q(-4,5), Q(3,5), Zero, Zero>>
PolZ == <<Zero, Zero, One, Zero>>
Init == /\ \E y \in {0, 3} : \E p \in {One, Q(1,2)} :
              /\ ph = [pos |-> <<Zero, I(y), Zero, One>>, dir |-> Vx, pol |-> PolZ, en |-> One,
                       prob |-> p, cols |-> [c \in {"#"} |-> Zero]]
              /\ p0 = p
        /\ n = 0 /\ hist = <<>>
Plane(x, h) == [shape |-> "plane", M |-> <<<<One, Zero, Zero, I(x)>>, <<Zero, I(h), Zero, Zero>>,
                                            <<Zero, Zero, I(h), Zero>>, <<Zero, Zero, Zero, One>>>>]
El(x, h, abs, id) == [surfs |-> << Plane(x, h) >>, absorber |-> abs, moves |-> TRUE, neutral |-> TRUE,
                      idcol |-> id, id |-> I(x)]
Kinds == [c \in {"#", "id", "loc"} |-> IF c = "loc" THEN "f" ELSE "i"]
AddCols(p, v, w) == [c \in DOMAIN p.cols \cup {"id", "loc"} |->
     IF c = "id" THEN (IF v # I(-1) \/ "id" \notin DOMAIN p.cols THEN v ELSE p.cols["id"])
     ELSE IF c = "loc" THEN (IF ~IsNaN(w) \/ "loc" \notin DOMAIN p.cols THEN w ELSE p.cols["loc"])
     ELSE p.cols[c]]
Pass(el, f, d) ==
    LET hit == Reached(el, ph)
        h == HitPoint(el.surfs[1], XYZ(ph.pos), XYZ(ph.dir))
        new == IF hit
               THEN [pos |-> <<h[1], h[2], h[3], One>>, dir |-> d, pol |-> PolZ, en |-> ph.en,
                     prob |-> Mul(ph.prob, f), cols |-> AddCols(ph, el.id, h[2])]
               ELSE [ph EXCEPT !.prob = IF el.absorber THEN Zero ELSE @,
                               !.cols = AddCols(ph, I(-1), NaN)]
    IN  /\ ph' = new /\ n' = n + 1 /\ UNCHANGED p0
        /\ hist' = << [el |-> el, b |-> ph, f |-> IF hit THEN f ELSE IF el.absorber THEN Zero ELSE One] >>
Next == n < MaxSteps /\ \E h \in {1, 2, 4}, abs \in BOOLEAN, f \in {Zero, Q(1,2), One}, d \in Dirs :
            Pass(El(2 * (n + 1), h, abs, "id"), f, d)
(* every step of the machine satisfies the clauses used on the recorded executions *)
StepOK == hist = <<>> \/
    LET el == hist[1].el b == hist[1].b a == ph
    IN  /\ (IF Reached(el, b) THEN AtHitPoint(el, b, a) /\ CarriesId(el, a)
            ELSE Untouched(el, b, a) /\ MissMarks(el, b, a, Kinds))
        /\ Shrinks(b, a) /\ Carried(b, a)
Global == /\ InRange(ph.prob) /\ Le(ph.prob, p0) /\ GoodDir(ph) /\ GoodPos(ph) /\ Transverse(ph)
(* and the clauses are not vacuous: corrupted steps are rejected *)
Corrupt == hist = <<>> \/
    LET el == hist[1].el b == hist[1].b a == ph
    IN  IF Reached(el, b)
        THEN /\ ~AtHitPoint(el, b, [a EXCEPT !.pos[2] = Add(@, Q(1, 100))])
             /\ ~CarriesId(el, [a EXCEPT !.cols["id"] = I(99)])
             /\ ~Shrinks(b, [a EXCEPT !.prob = Add(b.prob, Q(1, 1000))])
        ELSE /\ ~Untouched(el, b, [a EXCEPT !.dir[2] = Add(@, E9)])
             /\ ~Untouched(el, b, [a EXCEPT !.en = Add(@, E9)])
             /\ ~Untouched(el, b, [a EXCEPT !.prob = Add(@, E9)])
             /\ (NewCols(b, a) # {} => ~MissMarks(el, b, [a EXCEPT !.cols["loc"] = Zero], Kinds))
=============================================================================
