-------------------------------- MODULE C02 ---------------------------------
(* Fermi and Bose functions, derivative and inverse. *)
EXTENDS PoleModel, Run

Ops == {"fermi_fct", "bose_fct", "fermi_fct_d1"}
Shapes == {"scalar", "zerod", "vec", "mat", "betavec", "empty"}
Kinds == {"moderate", "tiny", "huge", "threshold", "int", "negative", "zero", "float32", "uint", "int8", "uint8"}
C02Scenarios == [op : Ops, shape : Shapes, kind : Kinds \cup {"complex", "chuge", "cneg"}, beta : {"float", "int", "large"}]
           \cup [op : Ops, shape : Shapes \ {"empty"}, kind : {"inf"}, beta : {"float", "int", "large"}]
           \cup [op : {"fermi_fct_inv"}, shape : Shapes, kind : {"moderate", "near0", "near1", "half"}, beta : {"float", "int", "large"}]

C02SelfCheck(sc) ==
    LET x == CASE sc.kind \in {"tiny", "near0"} -> N("1e-9") [] sc.kind \in {"huge", "chuge"} -> N(1000)
               [] sc.kind = "complex" -> N("1/3,2/5") [] OTHER -> N("-7/3")
        h == N("1e-25")
    IN Fails({
         <<"particle-hole", Close(Fermi(x) ++ Fermi(NegN(x)), 1, "1e-80", 0)>>,
         <<"bose-reflect", Close(Bose(x) ++ Bose(NegN(x)), -1, "1e-70", 0)>>,
         <<"bose-fermi", Close(Fermi(x), Bose(x) -- (2 ** Bose(2 ** x)), "1e-60", "1e-60")>>,
         <<"d1", Close((Fermi(x ++ h) -- Fermi(x -- h)) // (2 ** h), NegN(Fermi(x) ** Fermi(NegN(x))), "1e-30", "1e-60")>> })

\* eps32: the working precision of the recorded input type
Small(r) == IF Has(r, "f32") THEN N("1e-36") ELSE Tiny
Eps(r) == IF Has(r, "f32") THEN N("2e-6") ELSE N("2e-13")
\* conditioning with respect to rounding of beta*eps
Cond(x, f) == One ++ Mag(x) ** (One ++ Mag(f) ++ Mag(One -- f))
\* infinite energies (r.inf = sign): the limits
RowInf(op, r) ==
    Fails({<<"limit", Close(N(r.o), CASE op = "fermi_fct" -> (IF Lt(0, N(r.inf)) THEN Zero ELSE One)
                                      [] op = "bose_fct" -> (IF Lt(0, N(r.inf)) THEN Zero ELSE NegN(One))
                                      [] OTHER -> Zero, 0, Tiny)>>})
Row(op, r) == IF Has(r, "inf") THEN RowInf(op, r) ELSE
    LET o == N(r.o) beta == N(r.beta) e == N(r.eps) x == beta ** e
    IN CASE op = "fermi_fct" ->
              LET f == Fermi(x) IN Fails({<<"fermi", Close(o, f, 0, (Eps(r) ** Mag(f) ** Cond(x, f)) ++ Small(r))>>})
         [] op = "bose_fct" ->
              IF Same(x, 0) THEN Fails({<<"bose-divergence", ~IsFin(o) /\ ~IsNaN(o)>>})
              ELSE LET f == Bose(x) IN Fails({<<"bose", Close(o, f, 0, (Eps(r) ** Mag(f) ** (One ++ Mag(x) ** (One ++ Mag(f)))) ++ Small(r))>>})
         [] op = "fermi_fct_d1" ->
              LET f == Fermi(x) d == NegN(beta) ** f ** Fermi(NegN(x)) IN
              Fails({<<"fermi-derivative", Close(o, d, 0, Eps(r) ** ((Mag(d) ** Cond(x, f)) ++ (Mag(f) ** Mag(beta))) ++ Small(r))>>})
         [] op = "fermi_fct_inv" -> \* e is the value of the Fermi function
              LET v == LogN((One -- e) // e) // beta IN
              Fails({<<"fermi-inverse", Close(o, v, "1e-12", "1e-14" // beta)>>,
                     <<"fermi-of-inverse", Close(Fermi(beta ** o), e, 0, "1e-13")>>})
C02Abs0(session) == <<>>
C02Step(st, ev) == [st |-> st, bad |-> LET F(r) == Row(ev.op, r) IN JudgeRows(ev, F)]
=============================================================================
