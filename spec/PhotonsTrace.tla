---------------------------- MODULE PhotonsTrace ----------------------------
(* element: description of the element now used, want: the property to judge *)
(* photon:  b, a - one photon before and after, kinds of the columns         *)
(* table:   serial numbers and column names before and after                 *)
(* pair:    the same photon with two different initial probabilities          *)
(* chain:   p0, factors, p1 - a chain of elements with known factors          *)
EXTENDS Photons, TraceBase
TraceSt0 == [surfs |-> <<>>]
C01(el, e) ==
   IF ~Decided(el, e.b) THEN <<>>
   ELSE IF Reached(el, e.b)
   THEN (IF el.moves THEN << <<"recorded where the ray meets the surface", AtHitPoint(el, e.b, e.a)>> >> ELSE <<>>)
        \o << <<"carries the id of the element it hit", CarriesId(el, e.a)>>,
              <<"columns are kept", DOMAIN e.b.cols \subseteq DOMAIN e.a.cols>> >>
   ELSE << <<"missed photon untouched", Untouched(el, e.b, e.a)>>,
           <<"missed photon marked -1/NaN", MissMarks(el, e.b, e.a, e.kinds)>> >>
C02(el, e) ==
   << <<"probability in [0,1]", InRange(e.a.prob)>>, <<"probability never grows", Shrinks(e.b, e.a)>> >>
   \o (IF ~el.absorber /\ Decided(el, e.b) /\ ~Reached(el, e.b)
       THEN << <<"no factor without interaction", e.a.prob = e.b.prob>> >> ELSE <<>>)
C11(el, e) ==
   << <<"direction is a unit vector", GoodDir(e.a)>>, <<"position is a point", GoodPos(e.a)>>,
      (* a polarizing element may leave it undefined where it lets nothing pass *)
      <<"polarization keeps its length", (~el.neutral /\ e.a.prob = Zero) \/ SamePolLength(e.b, e.a)>>,
      <<"polarization stays transverse", (~el.neutral /\ e.a.prob = Zero) \/ Transverse(e.a)>> >>
   \o (IF el.neutral /\ ~el.composite THEN << <<"polarization only carried along", Carried(e.b, e.a)>> >> ELSE <<>>)
TraceStep(s, e) ==
  CASE e.k = "element" -> [st |-> e, ck |-> <<>>]
    [] e.k = "photon" -> [st |-> s, ck |-> IF s.want = "C01" THEN C01(s, e)
                                           ELSE IF s.want = "C02" THEN C02(s, e) ELSE C11(s, e)]
    [] e.k = "table" -> [st |-> s, ck |-> << <<"same photons in the same rows", e.before = e.after>> >>]
    [] e.k = "pair" -> [st |-> s, ck |-> << <<"factor independent of the history",
                                              SameFactor(e.b1, e.a1, e.b2, e.a2)>> >>]
    [] e.k = "rowwise" -> [st |-> s, ck |-> << <<e.what, e.a = e.b>> >>]
    [] e.k = "chain" -> [st |-> s, ck |->
          LET St(i) == e.steps[i]
              sure == \A i \in DOMAIN e.steps : St(i).all \/ Robust(St(i).surf, XYZ(St(i).pos), XYZ(St(i).dir))
              F(i) == IF St(i).all \/ Hit(St(i).surf, XYZ(St(i).pos), XYZ(St(i).dir)) THEN St(i).f
                      ELSE IF St(i).absorber THEN Zero ELSE One
              RECURSIVE P(_)
              P(i) == IF i = 0 THEN e.p0 ELSE Mul(P(i - 1), F(i))
          IN IF sure THEN << <<"product of the factors", Near(e.p1, P(Len(e.steps)), E12)>> >> ELSE <<>>]
    [] e.k = "factor" -> [st |-> s, ck |-> << <<"stated factor", Near(e.p1, Mul(e.p0, e.f), E12)>>,
                                              <<"stated factor in range", InRange(e.p1)>> >>]
    [] e.k = "zero" -> [st |-> s, ck |-> << <<"absorbed", e.p = Zero>> >>]
    [] e.k = "transport" -> [st |-> s, ck |->   \* jones matrix diag(js, jp) in the s,p system
          LET n == Unit(Cross(XYZ(e.b.dir), XYZ(e.a.dir)))
              p1 == Cross(XYZ(e.b.dir), n)
              p2 == Cross(XYZ(e.a.dir), n)
              ps == Dot(n, XYZ(e.b.pol))
              pp == Dot(p1, XYZ(e.b.pol))
              want == VAdd(VScale(Add(Mul(e.js, ps), Mul(e.jsp, pp)), n),
                           VScale(Add(Mul(e.jps, ps), Mul(e.jp, pp)), p2))
          IN << <<"parallel transport with Jones factors", VNear(XYZ(e.a.pol), want, E8)>> >>]
    [] e.k = "same" -> [st |-> s, ck |-> << <<"not turned, not changed", VNear(e.a, e.b, E9)>> >>]
    [] e.k = "free" -> [st |-> s, ck |-> << <<"direction is a unit vector", GoodDir(e.a)>>,
              <<"position is a point", GoodPos(e.a)>>,
              <<"polarization has unit length", e.a.prob = Zero \/ Near(Norm2(XYZ(e.a.pol)), Sq(e.len), E7)>>,
              <<"polarization stays transverse", e.a.prob = Zero \/ Transverse(e.a)>> >>]
    [] e.k = "aimed" -> [st |-> s, ck |-> << <<"direction is a unit vector", GoodDir(e.a)>>,
              <<"polarization has unit length", Near(Norm2(XYZ(e.a.pol)), One, E7) /\ e.a.pol[4] = Zero>>,
              <<"polarization stays transverse", Transverse(e.a)>> >>]
    [] e.k = "polvec" -> [st |-> s, ck |->   \* angle 0: closest to +y (or +x for rays along y)
          LET y == <<Zero, One, Zero>>
              ref == IF Lt(Add(Sq(e.dir[1]), Sq(e.dir[3])), E12) THEN <<One, Zero, Zero>> ELSE y
              v1 == Unit(VSub(ref, VScale(Dot(ref, e.dir), e.dir)))
              v2 == Cross(e.dir, v1)
          IN << <<"polarization vector for an angle",
                  VNear(XYZ(e.v), VAdd(VScale(Cos(e.ang), v1), VScale(Sin(e.ang), v2)), E7)>> >>]
    [] e.k = "mirror" -> [st |-> s, ck |->
          LET n == Unit(VSub(XYZ(e.b.dir), XYZ(e.a.dir)))
              R(v) == VSub(v, VScale(Mul(I(2), Dot(n, v)), n))
          IN << <<"reflection matrix", VNear(XYZ(e.a.pol), R(XYZ(e.b.pol)), E8)>>,
                <<"reflected polarization transverse", Transverse(e.a)>> >>]
=============================================================================
