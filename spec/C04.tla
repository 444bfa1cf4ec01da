-------------------------------- MODULE C04 ---------------------------------
(* Fermionic Fourier transforms iw <-> tau represent one Green's function. *)
EXTENDS Fourier, Run

NIw == {1, 2, 3, 4, 5, 8, 11}
NTau == {2, 3, 4, 5, 6, 9, 12, 17}
Batch == {"none", "vec", "mat"}
C04Scenarios ==
       [op : {"iw2tau_dft", "iw2tau_dft_soft"}, n : NIw, batch : Batch, beta : {"one", "large"}]
  \cup [op : {"tau2iw_dft", "tau2iw_ft_lin"}, n : NTau, batch : Batch, beta : {"one", "large"}]
  \cup [op : {"iw2tau"}, n : NIw, batch : Batch, mom : 1..4, fourier : {"default", "soft"}, perbatch : BOOLEAN, beta : {"one", "large"}]
  \cup [op : {"iw2tau-fit"}, n : {6, 9, 14}, batch : Batch, mom : 1..3, fit : 1..3, fourier : {"default", "soft"}, beta : {"one", "large"}]
  \cup [op : {"tau2iw"}, n : NTau, batch : Batch, mom : 0..3, fourier : {"default", "dft"}, perbatch : BOOLEAN, beta : {"one", "large"}]
  \cup [op : {"tau2iw-fit"}, n : {9, 14, 21}, batch : Batch, mom : 0..3, fit : 1..3, fourier : {"default", "dft"}, beta : {"one", "large"}]
  \cup [op : {"iw2tau_dft", "iw2tau_dft_soft"}, n : {32, 65, 128}, batch : {"none", "vec"}, beta : {"one", "large"}]
  \cup [op : {"tau2iw_dft", "tau2iw_ft_lin"}, n : {33, 64, 129}, batch : {"none", "vec"}, beta : {"one", "large"}]
  \cup [op : {"iw2tau_dft", "iw2tau_dft_soft"}, n : {257}, batch : {"none"}, beta : {"large"}]
  \cup [op : {"tau2iw_dft", "tau2iw_ft_lin"}, n : {270}, batch : {"none"}, beta : {"one"}]
  \cup [op : {"tau2iw"}, n : {270}, batch : {"none"}, mom : {2}, fourier : {"default", "dft"}, perbatch : {FALSE}, beta : {"large"}]
  \cup [op : {"iw2tau"}, n : {140}, batch : {"none"}, mom : {3}, fourier : {"default", "soft"}, perbatch : {FALSE}, beta : {"one"}]
  \cup [op : {"iw2tau"}, n : {7, 20}, batch : {"none", "vec"}, mom : {5, 6, 8}, fourier : {"default", "soft"}, perbatch : BOOLEAN, beta : {"one", "large"}]
  \cup [op : {"tau2iw"}, n : {8, 33}, batch : {"none", "vec"}, mom : {4, 5, 6, 7}, fourier : {"default", "dft"}, perbatch : BOOLEAN, beta : {"one", "large"}]
  \cup [op : {"roundtrip"}, n : {3, 6}, batch : {"none", "vec"}, mom : 1..3, beta : {"one"}]

C04SelfCheck(sc) ==
    LET p == <<N("-1/2"), N("3/4")>>  w == <<N("1/3"), N("2/3")>>  b == N(3)
        n == 4
        lin == [j \in 1..(n + 1) |-> N("1/2") -- (N(j - 1) // n)]  \* g(beta) = -g(0): no jump
    IN CASE sc.op = "iw2tau" ->
              LET c == Cheb(sc.mom)  v == [i \in 1..sc.mom |-> N(i) // 3]  m == [k \in 1..sc.mom |-> Moment(c, v, k)]
              IN Fails({<<"moment-weights", VecClose(MomentWeights(c, m), v, "1e-60", "1e-60")>>})
         [] sc.op \in {"tau2iw_ft_lin", "tau2iw"} ->
              \* closed form of the linear function: int_0^b (1/2 - t/b) e^{iwt} dt = 2/(b w^2)
              Fails({<<"linear", \A k \in 1..2 : LET x == IwN(k - 1, b) IN
                        Close(TauLinF(lin, b)[k], NegN(2 // (b ** Sq(x))), "1e-60", "1e-60")>>})
         [] OTHER ->
              \* the truncated sum of the antisymmetric part vanishes at tau = 0 and beta
              LET t == IwDft(PoleIw(3, p, w, b), b) IN Fails({<<"antiperiodic", Close(t[1], NegN(t[7]), "1e-60", "1e-60")>>})

Max1(v) == One ++ MaxMag(v)
TolV(scale) == N("1e-11") ** scale
Row(ev, r) ==
    LET op == ev.op  g == Vec(r.g)  beta == N(r.beta)  o == Vec(r.o)
        FT(v) == IF ev.fourier = "soft" THEN IwDftSoft(v, beta) ELSE IwDft(v, beta)
        FW(v) == IF ev.fourier = "dft" THEN TauRiemannF(v, beta) ELSE TauLinF(v, beta)
        \* rounding scale of a result in tau (frequency) space
        ST == (MaxMag(g) ** Len(g)) // beta  SW == MaxMag(g) ** beta
        Eq(name, v, t) == Fails({<<name \o "-length", Len(o) = Len(v)>>, <<name, VecClose(o, v, 0, t)>>})
        Jump(m0, t) == Fails({<<"jump", Len(o) > 1 /\ Close(o[1] ++ o[Len(o)], NegN(m0), 0, t)>>})
    IN CASE op = "iw2tau_dft" -> Eq("dft", IwDft(g, beta), TolV(ST))
         [] op = "iw2tau_dft_soft" -> Eq("soft", IwDftSoft(g, beta), TolV(ST))
         [] op = "tau2iw_dft" -> Eq("riemann", TauRiemannF(g, beta), TolV(SW))
         [] op = "tau2iw_ft_lin" -> Eq("linear", TauLinF(g, beta), TolV(SW) ** 10)
         [] op = "iw2tau" ->
              LET mom == Vec(r.mom)  p == Cheb(Len(mom))  w == MomentWeights(p, mom)  n == 2 * Len(g)
                  v == VAdd(FT(VSub(g, PoleIw(Len(g), p, w, beta))), PoleTau(n, p, w, beta))
                  t == TolV(One ++ SumMag(w) ++ (((MaxMag(g) ++ (SumMag(w) ** beta)) ** Len(g)) // beta))
              IN Eq("tail-corrected", v, t) \cup Jump(mom[1], t)
         [] op = "iw2tau-fit" -> \* data of a pole model on the fit's own mesh: exact at every tau
              LET p == Vec(r.p)  w == Vec(r.w)  t == N("1e-7") ** SumMag(w) ** (One ++ (beta // 4))
              IN Eq("fit-exact", PoleTau(2 * Len(g), p, w, beta), t) \cup Jump(SumN(w), t)
         [] op = "tau2iw" ->
              LET mom == IF ev.hasmom THEN Vec(r.mom) ELSE <<NegN(g[1] ++ g[Len(g)])>>
                  p == Cheb(Len(mom))  w == MomentWeights(p, mom)  n == Len(g) - 1
                  v == VAdd(FW(VSub(g, PoleTau(n, p, w, beta))), PoleIw((n + 1) \div 2, p, w, beta))
              IN Eq("tail-corrected", v, TolV((MaxMag(g) ++ SumMag(w)) ** (10 ++ beta)) ** 10)
         [] op = "tau2iw-fit" ->
              LET p == Vec(r.p)  w == Vec(r.w)
              IN Eq("fit-exact", PoleIw(Len(g) \div 2, p, w, beta), N("1e-7") ** SumMag(w) ** (One ++ beta))
         [] op = "roundtrip-back" -> \* iw -> tau -> iw of a model covered by the moments
              LET p == Vec(r.p)  w == Vec(r.w)  v == PoleIw(Len(o), p, w, beta)
              IN Fails({<<"roundtrip", VecClose(o, v, 0, N("1e-9") ** SumMag(w) ** (10 ++ beta))>>})

C04Abs0(session) == <<>>
C04Step(st, ev) == [st |-> st, bad |-> LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
