-------------------------------- MODULE C07 ---------------------------------
(* Pole fits: exact constraints, fixed Chebyshev mesh, constrained least-squares optimum. *)
EXTENDS Fourier, Run

Widths == {"default", "scalar", "none", "array"}
\* on the symmetric mesh the Fermi function is 1/2 plus an odd function: m moments and the occupation are independent iff
OccIndependent(m, n) == m < n /\ (m >= 1 => (m \div 2) + 1 <= n \div 2)
C07Scenarios ==
       [op : {"from_moments"}, n : 0..8, width : Widths, batch : {"none", "vec", "mat"}, obj : BOOLEAN]
  \cup {s \in [op : {"from_z"}, n : {1, 2, 3, 4, 6}, m : 0..4, width : Widths, weight : {"none", "vec", "batch"}, batch : {"none", "vec"}, data : {"mesh", "noise"}, obj : {TRUE}] : s.m <= s.n}
  \cup {s \in [op : {"from_tau"}, n : {1, 2, 3, 4, 6}, m : 0..3, occ : {"no", "yes", "zero", "big"}, width : {"default", "scalar"}, weight : {"none", "vec", "batch"}, batch : {"none", "vec"}, data : {"mesh", "noise"}] :
        IF s.occ = "no" THEN s.m <= s.n ELSE OccIndependent(s.m, s.n)}
  \cup {s \in [op : {"izp2tau", "tau2izp"}, n : {2, 3, 20, 24}, m : {0, 1, 2}, occ : BOOLEAN] : s.occ => OccIndependent(s.m, s.n)}
  \cup {s \in [op : {"izp2tau-exact"}, n : {4, 6}, m : {1, 2, 3}, given : {"data", "moments"}] : TRUE}
  \cup {s \in [op : {"tau2izp-exact"}, n : {6, 7}, m : {0, 1, 2, 3}, given : {"data", "moments", "occ", "both"}, weight : BOOLEAN] : s.m = 0 => s.given \in {"data", "occ"}}
  \cup [op : {"tau2izp-weight"}, n : {20, 24}, m : {0, 1, 2}]
  \cup [op : {"from_moments"}, n : {9, 12}, width : Widths, batch : {"none", "vec"}, obj : {TRUE}]
  \cup [op : {"from_z"}, n : {8, 11}, m : {0, 3, 5}, width : Widths, weight : {"none", "vec", "batch"}, batch : {"none", "vec"}, data : {"mesh", "noise"}, obj : {FALSE}]
  \cup [op : {"from_tau"}, n : {8, 10}, m : {0, 2, 4}, occ : {"no", "yes"}, width : {"default", "scalar"}, weight : {"none", "vec", "batch"}, batch : {"none", "vec"}, data : {"mesh", "noise"}]
  \cup [op : {"reject-overconstrained"}, n : 1..3, fn : {"from_z", "from_tau", "from_tau-occ"}, obj : BOOLEAN]

\* |m_2| decides the width if none is given
AutoWidth(mom, n) == IF Len(mom) <= 1 \/ Lt(Mag(mom[2]), "0.1") THEN One ELSE Mag(mom[2]) // MaxMag(Cheb(n))
Mesh(n, w) == VScale(w, Cheb(n))

C07SelfCheck(sc) ==
    IF sc.op # "from_z" THEN {} ELSE
    LET p == Mesh(sc.n, N("3/2"))  w == [i \in 1..sc.n |-> N(i) // 7]
        nz == IF sc.n < 8 THEN 5 ELSE sc.n
        zs == [k \in 1..nz |-> IU ** k]
        A == [k \in 1..nz |-> [i \in 1..sc.n |-> One // (zs[k] -- p[i])]]
        B == [k \in 1..(2 * nz) |-> [i \in 1..sc.n |-> IF k <= nz THEN Re(A[k][i]) ELSE Im(A[k - nz][i])]]
        C == Vander(p, sc.m)
        x == ConstrLstsq(B, MatVec(B, w), C, MatVec(C, w))
    IN Fails({<<"fit-of-own-model-recovers-it", VecClose(x, w, 0, "1e-20")>>,
              <<"constraints-met", VecClose(MatVec(C, x), MatVec(C, w), 0, "1e-20")>>})

RealStack(A) == LET n == Len(A) IN [k \in 1..(2 * n) |-> IF k <= n THEN [i \in DOMAIN A[k] |-> Re(A[k][i])] ELSE [i \in DOMAIN A[k - n] |-> Im(A[k - n][i])]]
RealStackV(b) == LET n == Len(b) IN [k \in 1..(2 * n) |-> IF k <= n THEN Re(b[k]) ELSE Im(b[k - n])]
Norm(v) == SqrtN(VNorm2(v))
NormM(A) == SqrtN(SumN([i \in DOMAIN A |-> VNorm2(A[i])]))
\* A, b: (weighted) linear problem; C, d: exact constraints; x: returned residues
FitClauses(p, mesh, x, A, b, C, d) ==
    LET opt == ConstrLstsq(A, b, C, d)
        e == Norm(VSub(MatVec(A, x), b))   eopt == Norm(VSub(MatVec(A, opt), b))
        slack == N("1e-9") ** (Norm(b) ++ (NormM(A) ** (Norm(x) ++ Norm(opt))))
    IN Fails({<<"mesh", VecClose(p, mesh, "1e-12", "1e-15")>>,
              <<"finite", AllFin(x) /\ Len(x) = Len(p)>>}
             \cup {<<"constraint-" \o ToString(k), Close(Dot(C[k], x), d[k], 0, N("1e-9") ** (Mag(d[k]) ++ SumN([i \in DOMAIN x |-> Mag(C[k][i] ** x[i])])))>> : k \in DOMAIN C}
             \cup {<<"optimal", Le(e, eopt ++ slack)>>})

Row(ev, r) ==
    IF ev.op \in {"izp2tau", "tau2izp"} THEN
        LET p == Vec(r.p)  w == Vec(r.w)  beta == N(r.beta)  x == N(r.x)
            v == IF ev.op = "izp2tau" THEN GTau(x, p, w, beta) ELSE GZ(x, p, w)
        IN Fails({<<"recovers-model", Close(N(r.o), v, 0, IF ev.mesh = 1 THEN N("1e-5") ELSE N("1e-8"))>>})
    ELSE IF ev.op = "izp2tau-exact" THEN  \* the jumps of G(tau) and of its derivative are the given moments
        LET o == Vec(r.o)  mom == Vec(r.mom)  h == N(r.h)
            D(f) == (N("-25/12") ** f[1] ++ N(4) ** f[2] -- N(3) ** f[3] ++ N("4/3") ** f[4] -- N("1/4") ** f[5]) // h
            d0 == D(o)  db == Zero -- D([i \in 1..5 |-> o[11 - i]])
        IN Fails({<<"jump-is-moment-0", Close(o[1] ++ o[10], Zero -- mom[1], 0, "1e-9")>>}
                 \cup (IF Len(mom) > 1 THEN {<<"slope-jump-is-moment-1", Close(d0 ++ db, mom[2], 0, "1e-5")>>} ELSE {}))
    ELSE IF ev.op = "tau2izp-weight" THEN
        \* values of negligible weight do not matter (they may still mislead the spread of the poles in a few of the runs)
        LET z == Vec(r.z)
            Good(j) == LET p == Vec(r.p[j])  w == Vec(r.w[j])  o == Vec(r.o[j]) IN \A k \in DOMAIN z : Close(o[k], GZ(z[k], p, w), 0, "3e-3")
        IN Fails({<<"weights-used", Cardinality({j \in DOMAIN r.p : Good(j)}) >= 3>>})
    ELSE IF ev.op = "tau2izp-exact" THEN
        \* sum over the Pade frequencies recovers moment and occupation of the returned function
        LET o == Vec(r.o)  z == Vec(r.izp)  c == Vec(r.rid)  beta == N(r.beta)  mom == Vec(r.mom)
            q == [i \in DOMAIN o |-> c[i] ** Re(o[i])]
            den == N("1/2") ** mom[1] ++ (N(2) // beta) ** SumN(q)
            far == Len(o)
            Lead(i) == Re(z[i] ** o[i])
            \* the quadrature is exact for spectra well within its frequencies (a contradictory fit may spread out further)
            narrow == \E i \in 1..(far - 1) : /\ \A k \in 1..(far - 1) : Le(Im(z[k]), Im(z[i]))
                                             /\ Close(Lead(i), mom[1], 0, "1e-2")
        IN Fails({<<"tail-is-moment-0", Close(Lead(far), mom[1], 0, "2e-6")>>}
                 \cup (IF Len(mom) > 1 THEN {<<"tail-is-moment-1", Close(Zero -- (Im(z[far]) ** Im(z[far] ** o[far])), mom[2], 0, "1e-5") \/ ~narrow>>} ELSE {})
                 \cup (IF ev.occ = 1 /\ narrow THEN {<<"occupation", Close(den, N(r.occ), 0, "1e-6")>>} ELSE {}))
    ELSE
    LET n == ev.n
        mom == Vec(r.mom)
        mesh == Mesh(n, IF r.width = "0" THEN AutoWidth(mom, n) ELSE N(r.width))
        p == Vec(r.op)  x == Vec(r.ox)
    IN CASE ev.op = "from_moments" ->
              Fails({<<"mesh", VecClose(p, mesh, "1e-12", "1e-15")>>, <<"count", Len(x) = n /\ Len(p) = n>>}
                    \cup {<<"moment-" \o ToString(k), Close(Moment(p, x, k), mom[k], 0, N("1e-10") ** (MagMoment(p, x, k) ++ Mag(mom[k])))>> : k \in DOMAIN mom})
         [] ev.op = "from_z" ->
              LET z == Vec(r.z)  wt == Vec(r.wt)
                  A == [k \in DOMAIN z |-> [i \in DOMAIN mesh |-> wt[k] // (z[k] -- mesh[i])]]
                  b == [k \in DOMAIN z |-> wt[k] ** N(r.g[k])]
              IN FitClauses(p, mesh, x, RealStack(A), RealStackV(b), Vander(mesh, Len(mom)), mom)
         [] ev.op = "from_tau" ->
              LET beta == N(r.beta)  wt == Vec(r.wt)  t == TauMesh(Len(wt) - 1, beta)
                  A == [k \in DOMAIN t |-> [i \in DOMAIN mesh |-> wt[k] ** TauTerm(mesh[i], t[k], beta)]]
                  b == [k \in DOMAIN t |-> wt[k] ** N(r.g[k])]
                  C == Vander(mesh, Len(mom)) \o (IF ev.occ = 1 THEN <<[i \in DOMAIN mesh |-> Fermi(beta ** mesh[i])]>> ELSE <<>>)
              IN FitClauses(p, mesh, x, A, b, C, mom \o (IF ev.occ = 1 THEN <<N(r.occ)>> ELSE <<>>))

C07Abs0(session) == <<>>
C07Step(st, ev) == [st |-> st, bad |->
    IF ev.op = "reject-overconstrained" THEN RaisesOneOf(ev, {"ValueError"})
    ELSE LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
