-------------------------------- MODULE C09 ---------------------------------
(* The chemical potential search: every recorded history of evaluations is a behaviour of ChemPot. *)
EXTENDS ChemPot, PoleModel, Run

Fns == {"linear", "fermi", "steep", "tanh", "cubic", "exp", "kink", "plateau"}
C09Scenarios ==
       [op : {"search"}, fn : Fns, mu0 : {"default", "near", "left", "right", "farleft", "farright", "remote", "exact", "close2", "close4", "close6", "close8", "close11"}, step : {"default", "small", "large", "tiny"},
        kw : {"none", "xtol", "bisect", "toms748", "ridder"}]
  \cup [op : {"fail"}, fn : {"never-above", "never-below", "decreasing", "nan", "raises", "maxiter"}, mu0 : {"default", "left", "right"}, step : {"default", "small", "large"}]

\* the functions, evaluated exactly
Value(f, mu) ==
    CASE f.fn = "linear" -> N(f.a) ** (mu -- N(f.r))
      [] f.fn \in {"fermi", "steep"} -> SumN([i \in DOMAIN f.e |-> Fermi(N(f.beta) ** (N(f.e[i]) -- mu))]) -- N(f.occ)
      [] f.fn = "tanh" -> One -- (2 // (ExpN(2 ** (mu -- N(f.r))) ++ 1))
      [] f.fn = "cubic" -> PowN(mu -- N(f.r), 3) ++ (N(f.a) ** (mu -- N(f.r)))
      [] f.fn = "exp" -> ExpN(N(f.a) ** (mu -- N(f.r))) -- 1
      [] f.fn = "kink" -> LET d == mu -- N(f.r) IN IF Lt(d, 0) THEN N(f.a) ** d ELSE d
      [] f.fn = "plateau" -> LET d == mu -- N(f.r) IN IF Lt(d, NegN(f.a)) THEN d ++ N(f.a) ELSE IF Lt(N(f.a), d) THEN d -- N(f.a) ELSE Zero

C09SelfCheck(sc) == {}

C09Abs0(session) == [m |-> ChemStart(N(session.mu0)), f |-> session.f, xtol |-> N(session.xtol), kind |-> session.kind]
C09Step(st, ev) ==
    CASE ev.op = "eval" -> [st |-> [st EXCEPT !.m = EvalNext(st.m, N(ev.mu), N(ev.v))], bad |-> Fails(EvalClauses(st.m, N(ev.mu), N(ev.v)))]
      [] ev.op = "badeval" -> [st |-> st, bad |-> {}]    \* the function itself failed
      [] ev.op = "return" ->
            LET mu == N(ev.mu)  d == N("1e-9") ** (One ++ Mag(mu)) ++ (20 ** st.xtol)
            IN [st |-> st, bad |-> Fails(ReturnClauses(st.m, mu) \cup
                  {<<"must-fail", st.kind = "search">>,
                   <<"is-root", st.kind = "search" => Le(Mag(Value(st.f, mu)), "1e-10") \/ (Le(Value(st.f, mu -- d), 0) /\ Le(0, Value(st.f, mu ++ d)))>>})]
      [] ev.op = "raise" -> [st |-> st, bad |-> Fails({
            <<"raised-though-a-root-exists-" \o ev.exc, st.kind = "fail">>,
            <<"kind-of-error-" \o ev.exc, st.kind = "fail" => ev.exc \in CASE st.f.fn = "nan" -> {"ValueError", "RuntimeError"}
                                                                       [] st.f.fn = "raises" -> {"KeyError"}
                                                                       [] OTHER -> {"RuntimeError"}>>,
            <<"gave-up-too-early", st.f.fn \in {"never-above", "never-below", "decreasing"} => GaveUp(st.m)>>})]
=============================================================================
