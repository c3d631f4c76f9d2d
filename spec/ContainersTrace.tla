-------------------------- MODULE ContainersTrace --------------------------
(* tree: the nested container about to be run and the token of the list given  *)
(* call: one part or step is called: kind, id, token of the list it sees and    *)
(*       the token of the list it leaves behind                                 *)
(* end:  token of the list returned                                             *)
(* same: two photon lists, one run through the container, one by hand           *)
(* keep: values at every step as seen there and as recorded                     *)
(* format: tracks out of the recorder                                            *)
(* move: positions before, after moving by d, after moving back                  *)
EXTENDS Containers, Vec, TraceBase
TraceSt0 == [todo |-> << >>, tok |-> 0]
(* all photons within tol of where they were at step a *)
SameAt(e, a, b) == \A i \in DOMAIN e.d : VNear(e.d[i][a], e.d[i][b], e.atol)
(* nothing that is decided by rounding *)
Clear(e) == \A i \in DOMAIN e.d : \A a \in DOMAIN e.d[i] : \A b \in DOMAIN e.d[i] : \A c \in 1..3 :
              Gt(Abs(Sub(Abs(Sub(e.d[i][a][c], e.d[i][b][c])), e.atol)), E10)
TraceStep(s, e) ==
  CASE e.k = "tree" -> [st |-> [todo |-> Flat(e.tree), tok |-> e.tok], ck |-> << >>]
    [] e.k = "call" ->
         LET next == IF s.todo = << >> THEN << "none", "none" >> ELSE Head(s.todo)
         IN [st |-> [todo |-> IF s.todo = << >> THEN << >> ELSE Tail(s.todo),
                     tok |-> IF e.kind = "part" THEN e.out ELSE s.tok],
             ck |-> << <<"calls in order", next = << e.kind, e.id >> >>,
                       <<"sees the list the part before returned", e.in = s.tok>> >>]
    [] e.k = "end" -> [st |-> s, ck |-> << <<"all parts and steps run", s.todo = << >> >>,
                                          <<"returns the list of the last part", e.tok = s.tok>> >>]
    [] e.k = "same" -> [st |-> s, ck |-> << <<e.what, e.a = e.b>> >>]
    [] e.k = "keep" -> [st |-> s, ck |-> << <<"one snapshot per step, in order, independent", e.seen = e.kept>> >>]
    [] e.k = "format" ->
         LET n == IF e.d = << >> THEN 0 ELSE Len(e.d[1])
             ix == IF e.all THEN [i \in 1..n |-> i] ELSE Kept(LAMBDA a, b : SameAt(e, a, b), n)
         IN [st |-> s, ck |-> IF e.all \/ Clear(e)
               THEN << <<"tracks drop only unchanged positions",
                         /\ Len(e.out) = Len(e.d)
                         /\ \A i \in DOMAIN e.d : e.out[i] = [m \in DOMAIN ix |-> e.d[i][ix[m]]]>> >>
               ELSE << >>]
    [] e.k = "move" -> [st |-> s, ck |->
         << <<"moved along the ray by the distance",
              /\ VNear(XYZ(e.p1), VAdd(XYZ(e.p0), VScale(e.dist, XYZ(e.dir))), Mul(E12, e.scale))
              /\ e.p1[4] = One>>,
            <<"moving back restores", VNear(XYZ(e.p2), XYZ(e.p0), Mul(E12, e.scale)) /\ e.p2[4] = One>>,
            <<"moving changes nothing else", e.rest0 = e.rest1>> >>]
=============================================================================
