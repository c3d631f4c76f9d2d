------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation, the same for every part of the specification.        *)
(*                                                                         *)
(* A part supplies the operator Step(s, e) - substituted in its cfg file - *)
(* which is the transition function of that part of the specification: in  *)
(* specification state s the recorded event e leads to the specification   *)
(* state Step(s,e).st, and Step(s,e).ck is a sequence of <<clause, holds>> *)
(* pairs: the clauses of the property that apply to this event, and        *)
(* whether what the code did satisfies them.  The verdict is total: a      *)
(* violated clause is printed and the trace goes on from the state the     *)
(* specification prescribes.  A run is accepted if every event was         *)
(* consumed (POSTCONDITION) and no clause was violated.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Step(_, _), St0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, cnt
tvars == << l, st, cnt >>
TInit == l = 1 /\ st = St0 /\ cnt = << >>
Names(ck) == { ck[i][1] : i \in DOMAIN ck }
Bump(c, ck) ==
    [n \in DOMAIN c \cup Names(ck) |->
        (IF n \in DOMAIN c THEN c[n] ELSE 0) + Cardinality({i \in DOMAIN ck : ck[i][1] = n})]
Report(i, ck) == \A j \in DOMAIN ck : IF ck[j][2] THEN TRUE ELSE PrintT(<<"BAD", i, ck[j][1]>>)
Finish(c) == \A n \in DOMAIN c : PrintT(<<"CNT", n, c[n]>>)
(* a new session starts from the initial state; an exception in the code and an
   input that should have been refused are judged alike everywhere *)
From(e) == IF e.new THEN St0 ELSE st
Result(e) == IF e.k = "exception" THEN [st |-> From(e), ck |-> << <<"no-exception", FALSE>> >>]
             ELSE IF e.k = "refused" THEN [st |-> From(e), ck |-> << <<"refused " \o e.what, e.raised>> >>]
             ELSE Step(From(e), e)
TNext == /\ l <= Len(Trace)
         /\ LET r == Result(Trace[l])
            IN  /\ Report(l, r.ck) = TRUE
                /\ st' = r.st
                /\ cnt' = Bump(cnt, r.ck)
         /\ l' = l + 1
         /\ IF l = Len(Trace) THEN Finish(cnt') ELSE TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
