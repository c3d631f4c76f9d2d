--------------------------- MODULE PlacementTrace ---------------------------
(* group:   a group with its settings is built (or its settings are replaced)   *)
(* elem:    a single element is built                                           *)
(* set:     settings of a group are edited and the group is regenerated         *)
(* center:  the reference point of a group is moved by C                        *)
(* tool:    a misalignment tool is called on targets with displacement v        *)
(* wiggle:  random misalignments, as drawn for each member of each target       *)
(* observe: placement of everything known                                       *)
(* inner:   members of a group that is itself a member                          *)
(* args:    arguments received by the members                                   *)
(* frames:  members placed from points, normals and parallels                   *)
(* attr, seen: attributes set by a tool and attributes seen                     *)
(* period:  grating periods drawn                                               *)
(* tilt:    wiggle with compensated bar tilt                                    *)
EXTENDS Placement, TLC, TraceBase
TraceSt0 == [g |-> << >>, m |-> << >>, a |-> << >>]
(* functions from names grow with @@ ; m: [M, v, parts] of single elements; over: displaced members *)
Tol(e) == Mul(E12, e.scale)
Ids(n) == [i \in 1..n |-> Id4]
GroupOf(e) == [pos |-> e.pos, unc |-> e.unc, sig |-> e.sig, e |-> e.e, c |-> e.c, over |-> [i \in DOMAIN e.e |-> Id4]]
Fresh(g) == [g EXCEPT !.over = Ids(Len(g.e))]
Seen(g, i) == MM(g.over[i], Member(g, i))
RECURSIVE SameRows(_, _, _, _)
SameRows(g, Ms, tol, i) == i > Len(Ms) \/ (MNear(Ms[i], Seen(g, i), tol) /\ SameRows(g, Ms, tol, i + 1))
UpdG(s, names, F(_)) == [s EXCEPT !.g = [n \in DOMAIN s.g |-> IF n \in names THEN F(s.g[n]) ELSE s.g[n]]]
SetOf(q) == { q[i] : i \in DOMAIN q }
SetSettings(g, e) == Fresh([g EXCEPT !.unc = IF "unc" \in DOMAIN e THEN e.unc ELSE @,
                                     !.sig = IF "sig" \in DOMAIN e THEN e.sig ELSE @,
                                     !.e = IF "e" \in DOMAIN e THEN e.e ELSE @])
Tool(s, e) ==
  LET ts == SetOf(e.targets)  D == Displace(e.v) IN
  CASE e.tool = "moveglobal" -> UpdG(s, ts, LAMBDA g : Fresh([g EXCEPT !.unc = D]))
    [] e.tool = "moveindividual" -> UpdG(s, ts, LAMBDA g : Fresh([g EXCEPT !.sig = [i \in DOMAIN @ |-> D]]))
    [] e.tool = "moveelem" -> [s EXCEPT !.m = [n \in DOMAIN @ |-> IF n \in ts THEN [@[n] EXCEPT !.v = D] ELSE @[n]]]
    [] e.tool = "movemember" -> UpdG(s, ts, LAMBDA g : [g EXCEPT !.over[e.i] = D])
(* a drawn displacement: rigid, no motion in directions of zero width *)
Drawn(D, w) ==
  /\ IsRigid(D, E12)
  /\ \A i \in 1..3 : Le(Abs(D[i][4]), Add(Mul(I(7), w[i]), E12))
  /\ Le(Abs(D[3][2]), Add(Mul(I(7), w[4]), E12))
  /\ Le(Abs(D[3][1]), Add(Mul(I(7), w[5]), E12))
  /\ Le(Abs(D[2][1]), Add(Mul(I(7), w[6]), E12))
AllDrawn(e) == \A k \in DOMAIN e.sigs : \A i \in DOMAIN e.sigs[k] : Drawn(e.sigs[k][i], e.v)
Observed(s, e) ==
  << <<"groups: members where the settings put them",
       \A k \in DOMAIN e.groups : LET o == e.groups[k]  g == s.g[o.name] IN
          Len(o.M) = Len(g.e) /\ SameRows(g, o.M, Tol(e), 1)>>,
     <<"members numbered from the chosen start",
       \A k \in DOMAIN e.groups : LET o == e.groups[k] IN \A i \in DOMAIN o.ids : o.ids[i] = o.id0 + i - 1>>,
     <<"single elements and their layers where they belong",
       \A k \in DOMAIN e.elems : LET o == e.elems[k]  x == s.m[o.name] IN
          Len(o.M) = x.parts /\ \A i \in DOMAIN o.M : MNear(o.M[i], MM(x.v, x.M), Tol(e))>> >>
TraceStep(s, e) ==
  CASE e.k = "group" -> [st |-> [s EXCEPT !.g = (e.name :> GroupOf(e)) @@ @], ck |-> << >>]
    [] e.k = "elem" -> [st |-> [s EXCEPT !.m = (e.name :> [M |-> e.M, v |-> Id4, parts |-> e.parts]) @@ @], ck |-> << >>]
    [] e.k = "set" -> [st |-> UpdG(s, {e.name}, LAMBDA g : SetSettings(g, e)), ck |-> << >>]
    [] e.k = "center" -> [st |-> UpdG(s, {e.name}, LAMBDA g : Fresh(Recentred(g, e.C))), ck |->
         << <<"moving the reference point moves no member",
              Len(e.before) = Len(e.after) /\ \A i \in DOMAIN e.before : MNear(e.before[i], e.after[i], Tol(e))>>,
            <<"reference point moved", MNear(e.pos, MM(e.C, s.g[e.name].pos), Tol(e))>> >>]
    [] e.k = "tool" -> [st |-> Tool(s, e), ck |-> << >>]
    [] e.k = "wiggle" ->
         [st |-> [s EXCEPT !.g = [n \in DOMAIN @ |->
                    IF \E k \in DOMAIN e.targets : e.targets[k] = n
                    THEN LET k == CHOOSE k \in DOMAIN e.targets : e.targets[k] = n
                         IN Fresh([@[n] EXCEPT !.sig = e.sigs[k]])
                    ELSE @[n]]],
          ck |-> << <<"random misalignments within the requested widths", AllDrawn(e)>>,
                    <<"one random misalignment per member",
                      \A k \in DOMAIN e.sigs : Len(e.sigs[k]) = Len(s.g[e.targets[k]].e)>> >>]
    [] e.k = "tilt" ->
         [st |-> UpdG(s, {e.name}, LAMBDA g : Fresh([g EXCEPT !.sig = e.sig])),
          ck |-> << <<"bar tilt within range", \A i \in DOMAIN e.tilt : Le(Abs(e.tilt[i]), e.max)>>,
                    <<"rotation compensates the bar tilt",
                      \A i \in DOMAIN e.tilt : /\ IsRigid(e.sig[i], E12)
                         /\ Le(Abs(Sub(e.sig[i][3][1], Sin(e.tilt[i]))), Add(Mul(I(7), e.w), E12))>>,
                    <<"one tilt per member", Len(e.tilt) = Len(s.g[e.name].e)>> >>]
    [] e.k = "observe" -> [st |-> s, ck |-> Observed(s, e)]
    [] e.k = "inner" ->
         LET g == [pos |-> Member(s.g[e.outer], e.i), unc |-> Id4, sig |-> Ids(Len(e.e)), e |-> e.e, c |-> e.c,
                   over |-> Ids(Len(e.e))]
         IN [st |-> s, ck |-> << <<"members of nested groups", Len(e.M) = Len(e.e) /\ SameRows(g, e.M, Tol(e), 1)>> >>]
    [] e.k = "args" ->
         [st |-> s, ck |-> << <<"arguments: common to all, lists shared out in order",
            \A i \in DOMAIN e.got : \A j \in DOMAIN e.args : e.got[i][j] = ArgFor(e.args[j], i, Len(e.got))>> >>]
    [] e.k = "frames" ->
         [st |-> s, ck |-> << <<"members at the points, facing along the normals, turned to the parallels",
            /\ Len(e.M) = Len(e.xyz)
            /\ \A i \in DOMAIN e.M : LET M == e.M[i] IN
                 /\ VNear(TransPart(M), e.xyz[i], Tol(e))
                 /\ Framed(M, e.n[i], e.p[i], E9)>> >>]
    [] e.k = "attr" -> [st |-> [s EXCEPT !.a = [x \in { << t, e.key >> : t \in SetOf(e.targets) } |-> e.val] @@ @], ck |-> << >>]
    [] e.k = "seen" ->
         [st |-> s, ck |-> << <<"attributes as set last, all others untouched",
            \A i \in DOMAIN e.vals : LET x == e.vals[i]  key == << x[1], x[2] >> IN
               x[3] = IF key \in DOMAIN s.a THEN s.a[key] ELSE x[4]>> >>]
    [] e.k = "period" ->
         [st |-> s, ck |-> << <<"periods drawn around the mean",
            \A i \in DOMAIN e.d : Le(Abs(Sub(e.d[i], e.mean)), Mul(I(7), e.sigma))>>,
            <<"periods of other gratings kept", e.rest0 = e.rest1>> >>]
=============================================================================
