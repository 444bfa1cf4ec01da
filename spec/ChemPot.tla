------------------------------ MODULE ChemPot -------------------------------
(***************************************************************************)
(* The search for a chemical potential as a state machine over the history *)
(* of evaluations of a non-decreasing function.                            *)
(*   start   nothing evaluated yet                                         *)
(*   root    the guess already is a root                                   *)
(*   search  the sign of the guess was kept by every evaluation so far     *)
(*   bracket lo and hi were evaluated and the sign changes between them    *)
(***************************************************************************)
EXTENDS Kit

Sgn(v) == IF Lt(v, 0) THEN -1 ELSE IF Lt(0, v) THEN 1 ELSE 0
ChemStart(mu0) == [ph |-> "start", mu0 |-> mu0, sg |-> 0, lo |-> mu0, hi |-> mu0, n |-> 0]
\* distance from the guess, measured in the direction that reduces the error
Dist(st, mu) == IF st.sg > 0 THEN st.mu0 -- mu ELSE mu -- st.mu0
Last(st) == IF st.sg > 0 THEN st.lo ELSE st.hi

EvalClauses(st, mu, v) ==
    {<<"finite-potential", IsFin(mu)>>} \cup
    CASE st.ph = "start" -> {<<"starts-at-guess", Same(mu, st.mu0)>>}
      [] st.ph = "root" -> {}
      [] st.ph = "search" -> {<<"reduces-the-error", Le(0, Dist(st, mu))>>,
                              <<"growing-steps", Le(Dist(st, Last(st)), Dist(st, mu))>>,
                              <<"bounded-search", st.n <= 102>>}
      [] st.ph = "bracket" -> {<<"stays-in-bracket", Le(st.lo, mu) /\ Le(mu, st.hi)>>}
EvalNext(st, mu, v) ==
    LET n == st.n + 1 IN
    CASE st.ph = "start" -> [st EXCEPT !.n = n, !.sg = Sgn(v), !.ph = IF Sgn(v) = 0 THEN "root" ELSE "search"]
      [] st.ph = "root" -> [st EXCEPT !.n = n]
      [] st.ph = "search" ->
            IF Sgn(v) = st.sg THEN (IF st.sg > 0 THEN [st EXCEPT !.n = n, !.lo = mu, !.hi = mu] ELSE [st EXCEPT !.n = n, !.hi = mu, !.lo = mu])
            ELSE IF st.sg > 0 THEN [st EXCEPT !.n = n, !.ph = "bracket", !.lo = mu, !.hi = Last(st)]
            ELSE [st EXCEPT !.n = n, !.ph = "bracket", !.hi = mu, !.lo = Last(st)]
      [] st.ph = "bracket" -> [st EXCEPT !.n = n]
ReturnClauses(st, mu) ==
    {<<"returns-only-roots", st.ph \in {"root", "bracket"}>>,
     <<"returned-in-bracket", IF st.ph = "root" THEN Same(mu, st.mu0) ELSE Le(st.lo, mu) /\ Le(mu, st.hi)>>}
GaveUp(st) == st.ph = "search" /\ st.n > 100
=============================================================================
