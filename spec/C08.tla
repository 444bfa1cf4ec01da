-------------------------------- MODULE C08 ---------------------------------
(* Occupation numbers from sums over Matsubara or Pade frequencies. *)
EXTENDS Dens, Run

C08Scenarios ==
       [op : {"density_iw"}, nw : {1, 2, 3}, freq : {"matsubara", "pade", "constant"}, m : 1..3, fit : {0}, batch : {"none", "gf", "all", "mom"}, data : {"mesh", "noise"}]
  \cup [op : {"density_iw"}, nw : {4, 9, 16}, freq : {"matsubara", "pade"}, m : 1..4, fit : {0}, batch : {"none", "gf", "all", "mom", "mat"}, data : {"mesh", "noise"}]
  \cup [op : {"density_iw"}, nw : {6, 10}, freq : {"matsubara", "pade"}, m : {1, 2}, fit : {1, 2, 3}, batch : {"none", "gf", "all", "mom"}, data : {"mesh", "noise"}]
  \cup [op : {"density_iw"}, nw : {6}, freq : {"matsubara", "pade"}, m : {5, 6, 7}, fit : {0}, batch : {"none", "all", "mom"}, data : {"mesh", "noise"}]
  \cup [op : {"density_iw"}, nw : {120, 250}, freq : {"matsubara", "pade"}, m : {1, 2, 4}, fit : {0}, batch : {"none", "all"}, data : {"mesh", "noise"}]
  \cup [op : {"density_iw"}, nw : {64}, freq : {"matsubara", "pade"}, m : {2}, fit : {2}, batch : {"none", "all"}, data : {"mesh", "noise"}]
  \cup [op : {"density"}, nw : {1, 5, 12, 23}, kind : {"scalar", "vec", "mat2d", "matrix2", "matrix3", "matrixc", "total", "total-tuple", "total-matrix"}, err : {"true", "false", "float"}, model : {"tail", "noise"}]
  \cup [op : {"check_convergence"}, nw : {3, 5, 12}, kind : {"scalar", "vec", "mat2d", "matrix2", "matrix3", "matrixc", "total", "total-2d", "total-matrix"}, order : {1, 2, 3}]
  \cup [op : {"density_error", "density_error2"}, nw : {1, 9, 10, 25, 40}, noisy : BOOLEAN, batch : {"none", "vec"}, data : {"power", "noise"}]

\* diagonal of (z + V)^{-1} and of f(-V) for V = U diag(e) U^H; a scalar potential is the 1x1 case
TailDiag(z, U, e, i) == SumN([k \in DOMAIN e |-> (U[i][k] ** Conj(U[i][k])) // (z ++ e[k])])
OccDiag(U, e, beta, i) == Re(SumN([k \in DOMAIN e |-> U[i][k] ** Conj(U[i][k]) ** Fermi(NegN(beta ** e[k]))]))
\* last nine tenths of the frequencies enter the error estimate
Part(n) == ((n \div 10) + 1)..n
FactorMax(d, w, k) == LET s == Part(Len(d)) IN
    MaxMag([i \in 1..Cardinality(s) |-> LET j == i + (Len(d) \div 10) IN Mag(Re(d[j])) ** PowN(w[j], k)])
FactorAvg(d, w, k) == LET m == Len(d) - (Len(d) \div 10) IN
    SumN([i \in 1..m |-> LET j == i + (Len(d) \div 10) IN Re(d[j]) ** PowN(w[j], k)]) // m

C08SelfCheck(sc) ==
    IF sc.op = "density_iw" /\ sc.fit = 0 THEN
       \* exact for the model the moments determine, whatever the frequencies and weights
       LET beta == N("7/2")  mom == SubSeq(<<One, N("2/5"), N("1/2"), N("1/3"), N("2/7"), N("1/4"), N("1/5")>>, 1, sc.m)
           p == TailPoles(mom, sc.m)  w == MomentWeights(p, mom)
           iw == [k \in 1..sc.nw |-> IwN(k - 1, beta)]
           g == [k \in DOMAIN iw |-> GZ(iw[k], p, w)]
       IN Fails({<<"exact-on-model", Close(DensityIw(iw, g, [k \in DOMAIN iw |-> N(1 + (k % 3))], mom, 0, beta).v, Occ(p, w, beta), 0, "1e-50")>>})
    ELSE IF sc.op \in {"density_error", "density_error2"} THEN
       \* integral test: the estimate bounds the tail of 1/w^k
       LET beta == N(3)  w == [n \in 1..400 |-> Im(IwN(n - 1, beta))]  nn == sc.nw
           t(k) == (2 // beta) ** SumN([i \in 1..(400 - nn) |-> One // PowN(w[nn + i], k)])
       IN Fails({<<"bound2", Le(t(2), One // (PiN ** w[nn]))>>, <<"bound3", Le(t(3), One // (2 ** PiN ** Sq(w[nn])))>>})
    ELSE {}

Row(ev, r) ==
    CASE ev.op = "density_iw" ->
           LET d == DensityIw(Vec(r.iw), Vec(r.g), Vec(r.wt), Vec(r.mom), ev.fit, N(r.beta))
           IN Fails({<<"documented-sum", Close(N(r.o), d.v, 0, (IF ev.fit = 0 THEN N("1e-10") ELSE N("1e-6")) ** d.scale)>>}
                    \cup (IF ev.exact = 1 THEN {<<"exact-for-covered-model", Close(N(r.o), Occ(Vec(r.p), Vec(r.w), N(r.beta)), 0, N("1e-6") ** d.scale)>>} ELSE {}))
      [] ev.op \in {"density", "check_convergence"} ->
           LET beta == N(r.beta)  g == Vec(r.g)  U == Mat(r.U)  e == Vec(r.e)
               nn == Len(g)
               I == IF ev.total = 1 THEN 1..Len(e) ELSE {r.i}
               is == SetToSeq(I)
               T(k) == SumN([j \in DOMAIN is |-> Re(TailDiag(IwN(k - 1, beta), U, e, is[j]))])
               delta == [k \in 1..nn |-> Re(g[k]) -- T(k)]
               w == [k \in 1..nn |-> Im(IwN(k - 1, beta))]
               scale == One ++ SumMag(g) ++ N(nn * Len(e))
           IN IF ev.op = "density" THEN
                LET v == ((2 // beta) ** SumN(delta)) ++ SumN([j \in DOMAIN is |-> OccDiag(U, e, beta, is[j])])
                IN Fails({<<"density", Close(N(r.ox), v, 0, N("1e-11") ** scale)>>}
                      \cup (IF ev.err = 1 THEN {<<"error-estimate", Close(N(r.oerr), FactorAvg(delta, w, 2) // (PiN ** w[nn]), 0, N("1e-10") ** scale ** (One ++ w[nn]))>>} ELSE {}))
              ELSE LET o == Vec(r.o) IN
                Fails({<<"length", Len(o) = nn>>,
                       <<"remainder", \A k \in 1..nn : Close(o[k], PowN(w[k], ev.order) ** delta[k], 0, N("1e-11") ** scale ** PowN(w[k], ev.order))>>})
      [] ev.op = "density_error" ->
           LET d == Vec(r.d)  w == [k \in DOMAIN d |-> Im(N(r.iw[k]))]  n == Len(d)
               f == IF ev.noisy = 1 THEN FactorAvg(d, w, 2) ELSE FactorMax(d, w, 2)
           IN Fails({<<"estimate", Close(N(r.o), f // (PiN ** w[n]), 0, N("1e-11") ** (Tiny ++ FactorMax(d, w, 2)))>>})
      [] ev.op = "density_error2" ->
           LET d == Vec(r.d)  w == [k \in DOMAIN d |-> Im(N(r.iw[k]))]  n == Len(d)
               b == FactorMax(d, w, 3) // (2 ** PiN ** Sq(w[n]))
           IN Fails({<<"is-upper-bound", Le(b ** N("0.999999999"), N(r.o))>>, <<"right-order", Le(N(r.o), b ** 10)>>})

C08Abs0(session) == <<>>
C08Step(st, ev) == [st |-> st, bad |-> LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
