-------------------------------- MODULE C10 ---------------------------------
(* Moments of the lattice densities of states are numbers of closed walks. *)
EXTENDS Lattice, Run

C10Scenarios == [lat : Lattices, m : 0..24, via : {"module", "alias"}, D : {"scalar", "vector", "int"}]
Tabulated(lat, m) == m \in 1..20
C10SelfCheck(sc) == IF sc.m > 20 THEN {} ELSE Fails({
    <<"positive", Le(0, LatMoment(sc.lat, sc.m)) \/ sc.lat = "kagome">>,
    <<"normalised", Same(LatMoment(sc.lat, 0), 1)>>, <<"traceless", sc.lat = "box" \/ Same(LatMoment(sc.lat, 1), 0)>>,
    \* Cauchy-Schwarz: M_{2k}^2 <= M_{2k-2} M_{2k+2}
    <<"log-convex", sc.m >= 2 /\ sc.m % 2 = 0 => Le(Sq(LatMoment(sc.lat, sc.m)), LatMoment(sc.lat, sc.m - 2) ** LatMoment(sc.lat, sc.m + 2) ** N("1.0000000001"))>>})

Row(ev, r) == LET m == r.mi  D == N(r.D)  v == LatMoment(ev.lat, m) ** PowN(D, m) IN
    Fails({<<"closed-walks", Close(N(r.o), v, "3e-14", 0)>>})
C10Abs0(session) == <<>>
C10Step(st, ev) == [st |-> st, bad |->
    IF ev.exc # "" THEN Fails({<<"raised-" \o ev.exc, ev.exc = "NotImplementedError" /\ ~Tabulated(ev.lat, ev.m)
                                                     /\ ~(ev.lat \in Bipartite /\ ev.m % 2 = 1) /\ ev.lat # "box">>})
    ELSE LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
