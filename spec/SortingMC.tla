------------------------------ MODULE SortingMC ------------------------------
(* All histories of applications of a few factors to a file and its           *)
(* descendants, factors in quarters of one; and bulk application as a loop    *)
(* over orders and offsets.  A design that multiplies again without undoing,  *)
(* and one that records the product of factors, are told apart.               *)
EXTENDS Sorting, TLC
CONSTANTS Fac, Area, MaxFile, Ord, Off
OrdDef == {-2, -1, 1}
OffDef == {-1, 0, 1}
OrdBig == {-2, -1, 0, 1, 2}
VARIABLES files, wrong, todo, written, req
vars == << files, wrong, todo, written, req >>
(* area in sixteenths so that quarters of quarters stay whole *)
File0 == [area |-> 16 * Area, fac |-> 0]
Undo(f) == IF f.fac = 0 THEN f.area ELSE (f.area * 4) \div f.fac
ApplyTo(f, q) == [area |-> (Undo(f) * q) \div 4, fac |-> q]
Again(f, q) == [area |-> (f.area * q) \div 4, fac |-> q]
Init == /\ files = << [f |-> File0, last |-> 0] >> /\ wrong = << File0 >>
        /\ req \in [o : SUBSET Ord, t : SUBSET Off, a : SUBSET Ord]
        /\ todo = req.o \X req.t /\ written = {}
DoApply == /\ Len(files) < MaxFile
           /\ \E i \in DOMAIN files, q \in Fac :
                /\ files' = Append(files, [f |-> ApplyTo(files[i].f, q), last |-> q])
                /\ wrong' = Append(wrong, Again(wrong[i], q))
           /\ UNCHANGED << todo, written, req >>
Bulk == /\ \E x \in todo :
             /\ todo' = todo \ {x}
             /\ written' = IF x[1] + x[2] \in req.a /\ SameSide(x[1], x[1] + x[2]) THEN written \cup {<< x[1], x[1] + x[2] >>} ELSE written
        /\ UNCHANGED << files, wrong, req >>
Next == (todo = {} /\ DoApply) \/ Bulk
OnceOK == \A i \in DOMAIN files : files[i].last # 0 => files[i].f.area * 4 = 16 * Area * files[i].last /\ files[i].f.fac = files[i].last
BulkOK == todo = {} => written = Wanted(req.o, req.t, req.a)
NoOtherSide == \A w \in written : SameSide(w[1], w[2]) /\ w[2] # 0
(* multiplying again without undoing gives another area as soon as a factor below one was there before *)
WrongSeen == \A i \in DOMAIN files : (files[i].f # wrong[i]) <=> (files[i].f.area # wrong[i].area)
=============================================================================
