----------------------------- MODULE DisplayMC -----------------------------
(* Three machines: "strip" closes the frame between two rings with triangles, *)
(* one after the other on either ring; "look" changes settings and geometry   *)
(* in any order; "tree" builds assemblies.                                    *)
EXTENDS Display
CONSTANTS N
VARIABLES kind, nout, nin, oa, ib, strip, ownset, geoset, hasgeo, tree, shown
vars == << kind, nout, nin, oa, ib, strip, ownset, geoset, hasgeo, tree, shown >>
Keys == { "shape", "color" }
Empty == [k \in {} |-> 0]
Known == { "box", "container" }
Leaf(s, n) == [shapes |-> s, name |-> n, sub |-> << >>]
Yes == << "odd", "box", "None" >>
Cont == << "container" >>
Init == /\ kind \in { "strip", "look", "tree" }
        /\ nout \in 3..N /\ nin \in 3..N /\ (kind # "strip" => nout = 3 /\ nin = 3)
        /\ oa = 0 /\ ib = 0 /\ strip = << >>
        /\ ownset = Empty /\ geoset = Empty /\ hasgeo \in BOOLEAN /\ (kind # "look" => hasgeo)
        /\ tree = [shapes |-> Cont, name |-> "0", sub |-> << >>] /\ shown = << >>
Outer == /\ kind = "strip" /\ oa < nout
         /\ strip' = Append(strip, << (oa + 1) % nout, oa, nout + (ib % nin) >>) /\ oa' = oa + 1
         /\ shown' = Append(shown, << oa % nout, ib % nin >>)
         /\ UNCHANGED << kind, nout, nin, ib, ownset, geoset, hasgeo, tree >>
Inner == /\ kind = "strip" /\ ib < nin
         /\ strip' = Append(strip, << oa % nout, nout + ib, nout + ((ib + 1) % nin) >>) /\ ib' = ib + 1
         /\ shown' = Append(shown, << oa % nout, ib % nin >>)
         /\ UNCHANGED << kind, nout, nin, oa, ownset, geoset, hasgeo, tree >>
Set == /\ kind = "look"
       /\ \E k \in Keys : \E v \in { "1", "2" } :
             \/ ownset' = (k :> v) @@ ownset /\ UNCHANGED geoset
             \/ geoset' = (k :> ("1" \o v)) @@ geoset /\ UNCHANGED ownset
             \/ ownset' = [x \in (DOMAIN ownset) \ {k} |-> ownset[x]] /\ UNCHANGED geoset
       /\ UNCHANGED << kind, nout, nin, oa, ib, strip, hasgeo, tree, shown >>
(* append oa part to the assembly or to its last member; remember what is displayable *)
Grow == /\ kind = "tree" /\ Len(strip) < 4
        /\ \E s \in { Yes, << "None", "box" >>, << "odd" >>, Cont } : \E deep \in BOOLEAN :
             LET n == ToString(Len(strip) + 1)
                 last == Len(tree.sub)
             IN /\ (deep => last > 0 /\ tree.sub[last].shapes = Cont)
                /\ tree' = IF deep THEN [tree EXCEPT !.sub[last].sub = Append(@, Leaf(s, n))]
                           ELSE [tree EXCEPT !.sub = Append(@, Leaf(s, n))]
                /\ shown' = IF s = Yes THEN Append(shown, n) ELSE shown
        /\ strip' = Append(strip, << 0, 0, 0 >>)
        /\ UNCHANGED << kind, nout, nin, oa, ib, ownset, geoset, hasgeo >>
Next == Outer \/ Inner \/ Set \/ Grow
(* whichever way the strip is closed it fills the frame, unless it goes all the way round one ring and *)
(* comes back to a connection it already used; before it is closed it does not *)
FrameOK == kind = "strip" => (Frame(strip, nout, nin) <=> (oa = nout /\ ib = nin /\ Cardinality({ shown[i] : i \in DOMAIN shown }) = nout + nin))
JoinOK == (kind = "strip" /\ oa = nout /\ ib = nin) =>
    LET P == [xyz |-> [i \in 1..(nout + nin) |-> i], tri |-> strip]
        Q2 == [xyz |-> [i \in 1..(nout + 2) |-> 100 + i], tri |-> << << 0, 1, 2 >> >>]
        pts == JoinPts(<< P, Q2, P >>, 1)
        t == JoinTri(<< P, Q2, P >>, 1, 0)
        n == Len(strip)
    IN /\ Indexed(t, Len(pts)) /\ Len(t) = 2 * n + 1
       /\ \A i \in 1..n : \A j \in 1..3 : pts[t[i][j] + 1] = pts[t[n + 1 + i][j] + 1]
       /\ \A j \in 1..3 : pts[t[n + 1][j] + 1] = 100 + j
LookOK == kind = "look" => \A k \in Keys :
    LET v == Lookup(ownset, hasgeo, geoset, k) IN
    /\ (k \in DOMAIN ownset => v \in { "1", "2" })
    /\ (k \notin DOMAIN ownset /\ hasgeo /\ k \in DOMAIN geoset => v \in { "11", "12" })
    /\ (v = Missing <=> (k \notin DOMAIN ownset /\ ~(hasgeo /\ k \in DOMAIN geoset)))
TreeOK == kind = "tree" => Exported(tree, Known) = shown
ChooseOK == /\ Chosen(<< "a", "b" >>, {"b"}, 1) = "b" /\ Chosen(<< "a", "None", "b" >>, {"b"}, 1) = "None"
            /\ Chosen(<< "a" >>, {"b"}, 1) = "unknown"
(* covering: oa square frame *)
Pt(x, y) == << Q(x, 4), Q(y, 4) >>
Sq8 == << Pt(-8, -8), Pt(-8, 8), Pt(8, 8), Pt(8, -8), Pt(-4, -4), Pt(-4, 4), Pt(4, 4), Pt(4, -4) >>
CoverOK == (kind = "strip" /\ nout = 4 /\ nin = 4 /\ oa = 4 /\ ib = 4) =>
    \A x \in -9..9 : \A y \in -9..9 :
       LET p == << Add(Q(x, 4), Q(1, 97)), Add(Q(y, 4), Q(1, 89)) >>
           c == Covering(Sq8, strip, p)
           mx == Max2(Abs(p[1]), Abs(p[2]))
       IN (\A i \in DOMAIN strip : i % 2 = 1 <=> Cardinality({ j \in 1..3 : strip[i][j] < 4 }) = 1) =>
          (c = -1 \/ c = IF Gt(mx, One) /\ Lt(mx, I(2)) THEN 1 ELSE 0)
ColorOK == kind # "strip" \/ nout # 3 \/ nin # 3 \/ oa # 0 \/ ib # 0 \/ \A k \in 0..255 : Channel(Digits(k)) = k
(* exactly one of: in the wedge, in the rest of the turn, near one of the two sides *)
ArcOK == (kind = "strip" /\ oa = 0 /\ ib = 0 /\ nin = 3 /\ nout = 3) =>
    \A i \in 0..3 : \A j \in 1..5 : \A k \in 0..6 :
        LET t == Q(91 * k + 3, 100)
            p == << Mul(Q(1, 2), Cos(t)), Mul(Q(1, 2), Sin(t)) >>
            lo == Q(152 * i - 300, 100)
            hi == Add(lo, Q(104 * j, 100))
            x == InArc(p, lo, hi)
            y == InArc(p, hi, Add(lo, Mul(I(2), Pi)))
        IN (x = -1 /\ y = -1) \/ (x \in {0, 1} /\ y = 1 - x)
=============================================================================
