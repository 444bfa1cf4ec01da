-------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* The two machines TLC runs for every property module.                    *)
(*                                                                         *)
(* Generation: every scenario of the property module is an initial state;  *)
(* one step checks the specification's own theorems on it (SelfCheck) and  *)
(* prints it, so that the driver replays exactly the scenarios of the      *)
(* specification into the implementation.                                  *)
(*                                                                         *)
(* Validation: every recorded session is an initial state; one step per    *)
(* recorded event moves the abstract state with the property module's      *)
(* Step relation and collects the clauses the event violates.  A session   *)
(* conforms iff `viol' stays empty.                                         *)
(***************************************************************************)
EXTENDS Kit, Json, IOUtils, SequencesExt
CONSTANTS Scenarios,      \* set of records
          SelfCheck(_),   \* theorems of the specification that fail on a scenario
          Abs0(_),        \* abstract state at the start of a recorded session
          Step(_, _)      \* (state, event) -> [st |-> state, bad |-> clauses]
VARIABLES sess, pos, abst, viol

GenInit == sess \in Scenarios /\ pos = 0 /\ abst = <<>> /\ viol = {}
GenNext == /\ pos = 0 /\ pos' = 1 /\ UNCHANGED <<sess, abst>>
           /\ viol' = SelfCheck(sess)
           /\ PrintT("SC " \o ToJson(sess))
GenInv == viol = {}

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == sess \in DOMAIN Trace /\ pos = 0 /\ abst = Abs0(Trace[sess]) /\ viol = {}
TraceNext ==
    /\ pos < Len(Trace[sess].ev)
    /\ pos' = pos + 1
    /\ UNCHANGED sess
    /\ LET r == Step(abst, Trace[sess].ev[pos + 1])
       IN  /\ abst' = r.st
           /\ viol' = r.bad
           /\ r.bad # {} => PrintT("FAIL " \o ToJson([s |-> sess, k |-> pos + 1, bad |-> SetToSeq(r.bad)]))
RECURSIVE Total(_, _)
Total(i, acc) == IF i > Len(Trace) THEN acc ELSE Total(i + 1, acc + 1 + Len(Trace[i].ev))
\* every event of every session was consumed
AllConsumed == TLCGet("distinct") = Total(1, 0)
=============================================================================
