-------------------------------- MODULE C16 ---------------------------------
(***************************************************************************)
(* Coherent potential approximation.  An effective medium with self-energy *)
(* S has the local Green's function G(z) = h(z - S), h the Hilbert         *)
(* transform of the lattice; a component in the medium has                 *)
(* G_i = 1/(1/G + S - e_i).  S is the CPA self-energy iff the components'  *)
(* average is G; the root equation is 1/G - 1/<G_i>.                       *)
(***************************************************************************)
EXTENDS LatGf, Dens, Run

Lats == {"bethe", "box", "square"}
C16Scenarios ==
       [op : {"gf_cmpt_z", "self_root_eq", "self_fxdpnt_eq", "restrict"}, n : {1, 2, 3, 5}, e : {"real", "complex"}, shape : {"none", "4", "2x3", "bcast"}, lat : Lats, self : {"physical", "unphysical", "mixed"}]
  \cup [op : {"restrict"}, n : {1, 2, 3}, e : {"complex"}, shape : {"none", "4", "2x3", "bcast"}, lat : Lats, self : {"unphysical-root"}]
  \cup [op : {"gf_cmpt_z"}, n : {1, 2, 3}, e : {"complex"}, shape : {"none", "4", "2x3"}, lat : Lats, self : {"resonance"}]
  \cup [op : {"solve_root"}, n : {2, 3}, e : {"real", "complex"}, shape : {"concentrations"}, lat : {"bethe", "box"}, z : {"matsubara", "broad"}, start : {"none", "scalar", "given"},
        restricted : BOOLEAN, conc : {"generic", "dilute"}, tol : {"default", "1e-10"}]
  \cup [op : {"solve_root"}, n : {1, 2, 3}, e : {"real", "complex"}, shape : {"none", "4", "bcast"}, lat : Lats, z : {"matsubara", "broad", "axis"}, start : {"none", "given", "scalar"},
        restricted : BOOLEAN, conc : {"generic", "dilute"}, tol : {"default", "1e-10"}]
  \cup [op : {"solve_root"}, n : {2, 3}, e : {"real"}, shape : {"4"}, lat : {"bethe"}, z : {"matsubara", "broad"}, start : {"none"}, restricted : BOOLEAN, conc : {"pure", "zero-component"}, tol : {"1e-10"}]
  \cup [op : {"fxdocc"}, n : {1, 2, 3}, e : {"real", "bcast", "selfenergy"}, freq : {"matsubara", "pade"}, lat : Lats, start : {"none", "given"}, restricted : BOOLEAN, tol : {"default", "1e-10"}]
  \cup [op : {"fxdocc"}, n : {1, 2}, e : {"real", "bcast"}, freq : {"matsubara", "pade"}, lat : {"bethe"}, start : {"none"}, restricted : {TRUE}, tol : {"default", "1e-10"}, fit : {1, 2}]

Hil(lat, x, D) == LatGreen(lat, x, D, One)
Cmpt(G, S, e) == One // ((One // G) ++ S -- e)
Avg(G, S, e, c) == SumN([i \in DOMAIN e |-> c[i] ** Cmpt(G, S, e[i])])
Root(G, S, e, c) == (One // G) -- (One // Avg(G, S, e, c))
C16SelfCheck(sc) ==
    IF sc.op # "self_root_eq" \/ sc.shape # "none" \/ sc.self # "physical" THEN {} ELSE
    LET S == N("1/5,-1/3")  G == Hil(sc.lat, N("1/4,1/2") -- S, N("3/2")).g
        e == [i \in 1..sc.n |-> N(i) // 2]  c == [i \in 1..sc.n |-> N(2 * i) // (sc.n * (sc.n + 1))]
        T == SumN([i \in 1..sc.n |-> (c[i] ** (e[i] -- S)) // (One -- ((e[i] -- S) ** G))])
    IN Fails({<<"t-matrix", Close(Root(G, S, e, c), T // (One ++ (T ** G)), "1e-40", 0)>>,
              <<"pure", Close(Root(G, e[1], <<e[1]>>, <<One>>), Zero, 0, "1e-40")>>})

\* amplification of rounding errors of z - S in h and in 1/(1/G + S - e)
Amp(g, z, S, e) == One ++ (Mag(g.d // g.g) ** (Mag(z) ++ Mag(S))) ++ (Mag(g.g) ** (Mag(S) ++ MaxMag(e)))
Row(ev, r) ==
    LET z == N(r.z)  S == N(r.s)  D == N(ev.D)  e == Vec(r.e)  c == Vec(r.c)
        g == Hil(ev.lat, z -- S, D)  G == g.g
        a == Amp(g, z, S, e)
        gs == [i \in DOMAIN e |-> Cmpt(G, S, e[i])]
        worst == MaxMag([i \in DOMAIN e |-> gs[i] // G]) ++ One
        av == Avg(G, S, e, c)
        rt == Root(G, S, e, c)
        clip == IF Lt(0, Im(S)) THEN Cplx(Re(S), Zero) ELSE S
        rtol == N("1e-13") ** Sq(a) ** Sq(worst) ** (Mag(One // G) ++ Mag(One // av)) ** (One ++ Mag(G // av))
    IN CASE ev.op = "gf_cmpt_z" -> Fails({<<"components", \A i \in DOMAIN e : AClose(N(r.o[i]), gs[i], N("1e-13") ** Sq(a) ** worst ** Mag(gs[i]))>>})
         [] ev.op = "self_root_eq" -> Fails({<<"root-equation", AClose(N(r.o), rt, rtol)>>})
         [] ev.op = "self_fxdpnt_eq" -> Fails({<<"fixed-point-equation", AClose(N(r.o), S ++ rt, rtol ++ (N("1e-14") ** Mag(S)))>>})
         [] ev.op = "restrict" ->
              IF Le(Im(S), 0) THEN Fails({<<"physical-unchanged", AClose(N(r.o), rt, rtol)>>})
              ELSE LET q == Hil(ev.lat, z -- clip, D).g  rc == Root(q, clip, e, c)
                   IN Fails({<<"unphysical-penalised", Lt(N("0.99") ** Mag(rc), Mag(N(r.o))) /\ Lt(0, Mag(N(r.o)))>>})
\* a returned self-energy solves the CPA within the tolerance of the solver
RowSolve(ev, r) ==
    LET z == N(r.z)  S0 == N(r.s)  D == N(ev.D)  e == Vec(r.e)  c == Vec(r.c)  tol == N(ev.tol)
        S == IF ev.restricted /\ Lt(0, Im(S0)) THEN Cplx(Re(S0), Zero) ELSE S0
        g == Hil(ev.lat, z -- S, D)
        a == Amp(g, z, S, e)
        rt == Root(g.g, S, e, c)
    IN Fails({<<"finite", IsFin(S)>>,
              <<"self-consistent", Le(Mag(rt), (2 ** tol) ++ (N("1e-12") ** PowN(a, 3)))>>,
              <<"causal", ev.restricted => Le(Im(S0), 2000 ** tol)>>,
              <<"pure", ev.pure => Close(S, e[1], 0, (10 ** tol) ++ N("1e-9"))>>})
RowOcc(ev, r) == \* one row per batch element: all frequencies
    LET beta == N(ev.beta)  iw == Vec(r.iw)  S == Vec(r.s)  mu == N(r.mu)  c == Vec(r.c)  tol == N(ev.tol)  D == N(ev.D)
        E(k) == LET q == Vec(r.e[k]) IN [i \in DOMAIN q |-> q[i] -- mu]
        K == DOMAIN iw
        Bad(k) == LET g == Hil(ev.lat, iw[k] -- S[k], D)
                  IN Fails({<<"self-consistent", Le(Mag(Root(g.g, IF ev.restricted /\ Lt(0, Im(S[k])) THEN Cplx(Re(S[k]), Zero) ELSE S[k], E(k), c)), (20 ** tol) ++ N("1e-9"))>>,
                            <<"causal", ev.restricted => Le(Im(S[k]), 2000 ** tol)>>})
    IN UNION {Bad(k) : k \in K}
OccOf(ev, r) == LET iw == Vec(r.iw)  S == Vec(r.s)
    IN DensityIw(iw, [k \in DOMAIN iw |-> Hil(ev.lat, iw[k] -- S[k], N(ev.D)).g], Vec(r.wt), <<One, Re(S[Len(S)])>>, ev.fit, N(ev.beta)).v
C16Abs0(session) == <<>>
C16Step(st, ev) ==
    [st |-> st, bad |->
     CASE ev.op = "solve_root" ->
            IF ev.exc = "RuntimeError" /\ ev.hard THEN {} \* documented: unable to find a solution
            ELSE LET F(r) == RowSolve(ev, r) IN JudgeRows(ev, F)
       [] ev.op = "fxdocc" ->
            IF ev.exc = "RuntimeError" /\ ev.hard THEN {}
            ELSE (LET F(r) == RowOcc(ev, r) IN JudgeRows(ev, F))
                 \cup (IF ev.exc # "" \/ ~ev.sh THEN {} ELSE
                       Fails({<<"occupation", Close(SumN([i \in DOMAIN ev.rows |-> OccOf(ev, ev.rows[i])]), N(ev.occ), 0, (10 ** N(ev.tol)) ++ N("1e-9"))>>}))
       [] OTHER -> LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
