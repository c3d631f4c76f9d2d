----------------------------- MODULE ScatterTrace -----------------------------
(*  radial: element with centre c, widths w1 (in plane), w2 (across)                *)
(*  rhit:   b, a rows of a photon hit, recorded angles a1, a2                        *)
(*  rdraws: all angles drawn                                                         *)
(*  random: element; how = "width" (w), "function" (angles from the user), "zero"    *)
(*  shit:   b, a rows, recorded angle, asked: angle the function gave                *)
(*  sdraws: angles drawn; old and new directions                                     *)
(*  func:   what the function was given                                              *)
(*  miss:   photon that does not hit                                                 *)
(*  rot:    axis, angle -> matrix                                                    *)
(* State: element; senses in which positive angles may have been counted so far      *)
EXTENDS Scatter, TraceBase
TraceSt0 == [el |-> [k |-> "none"], senses |-> {1, -1} \X {1, -1}]
Kept(e, k) == << <<k \o "position, energy and probability stay", e.a.en = e.b.en /\ e.a.prob = e.b.prob
                     /\ VClose(XYZ(e.a.pos), XYZ(e.hit), E9) /\ e.a.pos[4] = One>>,
                 <<k \o "direction is a unit vector", IsUnit(XYZ(e.a.dir), E9) /\ e.a.dir[4] = Zero>>,
                 <<k \o "polarization stays perpendicular", Near(Dot(XYZ(e.a.pol), XYZ(e.a.dir)), Zero, E8) /\ IsUnit(XYZ(e.a.pol), E8)>> >>
TraceStep(s, e) ==
  CASE e.k \in {"radial", "random"} -> [st |-> [s EXCEPT !.el = e], ck |-> << >>]
    [] e.k = "rhit" ->
        LET d == XYZ(e.b.dir)
            o == XYZ(e.a.dir)
            r == VSub(XYZ(e.b.pos), s.el.c)
            plane == HasPlane(d, r)
            left == IF plane THEN {g \in s.senses : VNear(o, Radial(d, r, e.a1, e.a2, g[1], g[2]), E8)} ELSE s.senses
            both == IF plane THEN {g \in {1, -1} \X {1, -1} : VNear(o, Radial(d, r, e.a1, e.a2, g[1], g[2]), E8)} ELSE {<<1, 1>>}
        IN [st |-> [s EXCEPT !.senses = IF left = {} THEN @ ELSE left],
            ck |-> Kept(e, "radial: ") \o
              << <<"radial: turned by the recorded angles in and across the plane", both # {}>>,
                 <<"radial: angles count in the same sense for all photons", both = {} \/ left # {}>>,
                 <<"radial: turned by the recorded angles through the centre line", NoPlane(d, r) => Near(Dot(o, d), Along(e.a1, e.a2), E8)>>,
                 <<"radial: zero width gives zero angle", (s.el.w1 = Zero => e.a1 = Zero) /\ (s.el.w2 = Zero => e.a2 = Zero)>>,
                 <<"radial: zero width leaves directions alone", (s.el.w1 = Zero /\ s.el.w2 = Zero) => VNear(o, d, E10)>> >>]
    [] e.k = "rdraws" ->
        LET z1 == [i \in DOMAIN e.a1 |-> Div(e.a1[i], s.el.w1)]
            z2 == [i \in DOMAIN e.a2 |-> Div(e.a2[i], s.el.w2)]
        IN [st |-> s, ck |->
           (IF s.el.w1 # Zero THEN << <<"radial: angles in the plane are drawn with the requested width", StdNormal(z1)>>,
                                      <<"radial: photons are scattered independently", Independent(z1, z1, 1)>> >> ELSE << >>) \o
           (IF s.el.w2 # Zero THEN << <<"radial: angles across the plane are drawn with the requested width", StdNormal(z2)>> >> ELSE << >>) \o
           (IF s.el.w1 # Zero /\ s.el.w2 # Zero THEN << <<"radial: both angles are independent", Independent(z1, z2, 0)>> >> ELSE << >>)]
    [] e.k = "shit" -> [st |-> s, ck |-> Kept(e, "random: ") \o
        (IF s.el.how = "zero" THEN << <<"random: zero width leaves directions alone", VNear(XYZ(e.a.dir), XYZ(e.b.dir), E12)>> >>
         ELSE << <<"random: turned by the recorded angle", Near(Dot(XYZ(e.a.dir), XYZ(e.b.dir)), Cos(e.angle), E9)
                     /\ Near(Norm(Cross(XYZ(e.a.dir), XYZ(e.b.dir))), Abs(Sin(e.angle)), E9)>> >>) \o
        (IF s.el.how = "function" THEN << <<"random: angle is what the function gave for this photon", Near(e.angle, e.asked, E10)>> >> ELSE << >>)]
    [] e.k = "sdraws" ->
        LET z == [i \in DOMAIN e.angle |-> Div(e.angle[i], s.el.w)]
        IN [st |-> s, ck |->
            (IF s.el.how = "width" THEN << <<"random: angles are drawn with the requested width", StdNormal(z)>>,
                                           <<"random: photons are scattered independently", Independent(z, z, 1)>> >> ELSE << >>) \o
            << <<"random: all directions are equally likely",
                 NoPreferred(SubSeq([i \in DOMAIN e.angle |-> Around(e.old[i], e.turned[i], Lt(e.angle[i], Zero))], 1, Len(e.angle)))>>,
               <<"random: every octant is equally likely",
                 EvenOctants(SubSeq([i \in DOMAIN e.angle |-> Octant(e.old[i], e.turned[i], Lt(e.angle[i], Zero))], 1, Len(e.angle)))>> >>]
    [] e.k = "func" -> [st |-> s, ck |->
        << <<"random: function is given all photons and which are hit", e.n = e.want /\ e.hits = e.wanthits>>,
           <<"random: function is given where they hit", \A i \in DOMAIN e.pos : VClose(XYZ(e.pos[i]), XYZ(e.wantpos[i]), E9)>> >>]
    [] e.k = "miss" -> [st |-> s, ck |-> << <<"rays that miss are not scattered", e.a = e.b>> >>]
    [] e.k = "rot" ->
        LET u == IF e.normed THEN e.axis ELSE Unit(e.axis)
            Cl(j) == [i \in 1..3 |-> IF i = j THEN One ELSE Zero]
        IN [st |-> s, ck |->
            << <<"rotation about an axis", \A j \in 1..3 : VNear(<<e.m[1][j], e.m[2][j], e.m[3][j]>>, Rodrigues(Cl(j), u, Cos(e.angle), Sin(e.angle)), E9)>> >>]
=============================================================================
