----------------------------- MODULE ChemPotMC ------------------------------
(***************************************************************************)
(* Design model: a searcher that doubles its step until the sign changes   *)
(* and then evaluates any points of the bracket until the bracket has the  *)
(* width of the grid.  TLC runs it on every non-decreasing sign function   *)
(* of the grid and checks that the clauses of ChemPot hold on the way and  *)
(* that they imply what the user relies on.                                *)
(***************************************************************************)
EXTENDS ChemPot, Integers
CONSTANTS K,      \* grid -K..K
          Limit   \* step limit
VARIABLES a, b,   \* f < 0 left of a, f = 0 on a..b-1, f > 0 from b
          step, st, x, y, out, bad
vars == <<a, b, step, st, x, y, out, bad>>
Grid == (-4*K - 50)..(4*K + 50)
F(m) == IF m < a THEN -1 ELSE IF m < b THEN 0 ELSE 1

Init == /\ a \in (-K - 1)..(K + 1) /\ b \in a..(K + 1)
        /\ \E m \in (-K)..K : st = ChemStart(m) /\ x = m
        /\ step \in {1, 2, 3} /\ y = 0 /\ out = "run" /\ bad = {}
Observe(m) == /\ bad' = Fails(EvalClauses(st, N(m), N(F(m))))
              /\ st' = EvalNext(st, N(m), N(F(m)))
\* x: guess, y: signed step
First == /\ st.ph = "start" /\ out = "run" /\ Observe(x)
         /\ y' = -step * F(x) /\ UNCHANGED <<a, b, step, x, out>>
Root == st.ph = "root" /\ out = "run" /\ out' = "root" /\ bad' = Fails(ReturnClauses(st, N(x))) /\ UNCHANGED <<a, b, step, st, x, y>>
Walk == /\ st.ph = "search" /\ out = "run" /\ st.n <= Limit
        /\ Observe(x + y) /\ y' = 2 * y /\ UNCHANGED <<a, b, step, x, out>>
GiveUp == st.ph = "search" /\ out = "run" /\ st.n > Limit /\ out' = "error" /\ UNCHANGED <<a, b, step, st, x, y, bad>>
\* refinement: x, y become the bracket
Enter == /\ st.ph = "bracket" /\ out = "run" /\ out' = "refine"
         /\ x' = (CHOOSE m \in Grid : Same(N(m), st.lo)) /\ y' = (CHOOSE m \in Grid : Same(N(m), st.hi))
         /\ UNCHANGED <<a, b, step, st, bad>>
Refine == /\ out = "refine" /\ F(x) < 0 /\ F(y) > 0 /\ x + 1 < y
          /\ \E m \in {x + 1, (x + y) \div 2, y - 1} :
               /\ Observe(m) /\ IF F(m) < 0 THEN x' = m /\ y' = y ELSE x' = x /\ y' = m
          /\ UNCHANGED <<a, b, step, out>>
Return == /\ out = "refine" /\ ~(F(x) < 0 /\ F(y) > 0 /\ x + 1 < y)
          /\ out' = "root" /\ x' = IF F(y) = 0 THEN y ELSE x
          /\ bad' = Fails(ReturnClauses(st, N(x'))) /\ UNCHANGED <<a, b, step, st, y>>
Done == out \in {"root", "error"} /\ UNCHANGED vars
Next == First \/ Root \/ Walk \/ GiveUp \/ Enter \/ Refine \/ Return \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(First \/ Root \/ Walk \/ GiveUp \/ Enter \/ Refine \/ Return)

ClausesHold == bad = {}
\* the sign changes across the bracket
BracketSound == st.ph = "bracket" => Lt(st.lo, st.hi) /\ Lt(st.lo, N(b)) /\ Le(N(a), st.hi)
\* a returned potential is a root up to the resolution of the grid
RootSound == out = "root" => F(x) = 0 \/ (F(x) < 0 /\ F(x + 1) >= 0) \/ (F(x) > 0 /\ F(x - 1) <= 0)
\* the error is only raised if the searched side has no root
ErrorSound == out = "error" => FALSE
Terminates == <>(out \in {"root", "error"})
=============================================================================
