-------------------------------- MODULE C21 ---------------------------------
(***************************************************************************)
(* Rational continuation based on poles.  Data of a rational function with *)
(* enough points determines its poles, zeros, amplitude and residues;      *)
(* residue fits of any data are constrained least-squares optima.          *)
(***************************************************************************)
EXTENDS Kit, Run

Meshes == {"iw", "upper", "real"}
C21Scenarios ==
       {s \in [op : {"continuation"}, m : 0..3, deg : {0, -1, -2, -3}, mesh : Meshes, pts : {"few", "odd", "even", "many"}, weight : {"none", "given"}, moments : 0..2, asym : {"real", "complex"}, rotate : {"auto", "no"}] :
          s.m + s.deg >= 0 /\ s.moments <= s.m /\ (s.mesh = "iw" => s.m <= 3) /\ (s.asym = "complex" => s.moments = 0) /\ (s.rotate = "no" => s.mesh = "upper" \/ (s.mesh = "iw" /\ s.m <= 2))}
  \cup {s \in [op : {"continuation"}, m : 1..3, deg : {0, -1}, mesh : {"upper", "iw"}, pts : {"odd", "even"}, weight : {"none"}, moments : {0}, asym : {"faint"}, rotate : {"auto"}] : TRUE}
  \* points without weight are ignored; points close to, but not on the imaginary axis are no Matsubara frequencies
  \cup {s \in [op : {"continuation"}, m : 1..3, deg : {0, -1}, mesh : {"upper"}, pts : {"odd", "even", "many"}, weight : {"masked"}, moments : {0, 1}, asym : {"real"}, rotate : {"auto", "no"}] : TRUE}
  \cup {s \in [op : {"continuation"}, m : 1..2, deg : {0, -1}, mesh : {"near-iw"}, pts : {"odd", "even"}, weight : {"none", "given"}, moments : {0}, asym : {"real"}, rotate : {"auto", "no", "yes"}] : TRUE}
  \cup {s \in [op : {"number_poles"}, m : 0..4, deg : {1, 0, -1, -2, -3}, mesh : {"upper", "real"}, pts : {"few", "odd", "even", "many"}, weight : {"none", "given"}, start : {"none", "true", "less", "more"}] : s.m + s.deg >= 0}
  \cup {s \in [op : {"poles", "zeros"}, m : 1..5, deg : {1, 0, -1, -2}, mesh : {"upper", "real", "odd-real"}, pts : {"odd", "even", "many"}, weight : {"none", "given"}, basis : {"poly", "cheb"}] : s.m + s.deg >= 0}
  \cup [op : {"asymptotic"}, nz : 0..2, m : 0..3, pts : {"odd", "even"}, weight : {"none", "given"}, data : {"exact", "noise"}]
  \cup {s \in [op : {"residues"}, m : 1..4, pts : {"odd", "even"}, weight : {"none", "given", "int"}, moments : 0..5, data : {"exact", "noise"}, dtype : {"real", "complex"}] : TRUE}
  \cup {s \in [op : {"approx"}, nz : 0..3, m : 1..3, dtype : {"real", "complex"}, z : {"scalar", "array", "2d"}] : s.nz <= s.m}
  \cup [op : {"reject"}, what : {"degree-1", "degree-2", "start-large", "moments-many", "no-solution"}]

FromZp(a, zs, ps, x) == (a ** ProdN([i \in DOMAIN zs |-> x -- zs[i]])) // ProdN([i \in DOMAIN ps |-> x -- ps[i]])
\* residues of a zero-pole function
Resid(a, zs, ps) == Strict([k \in DOMAIN ps |-> (a ** ProdN([i \in DOMAIN zs |-> ps[k] -- zs[i]])) //
                        ProdN([i \in 1..(Len(ps) - 1) |-> ps[k] -- ps[IF i < k THEN i ELSE i + 1]])])
C21SelfCheck(sc) ==
    IF sc.op # "approx" \/ sc.z # "scalar" THEN {} ELSE
    LET zs == Strict([i \in 1..sc.nz |-> Cplx(N(i) // 3, N(i * i) // 7)])  ps == Strict([i \in 1..sc.m |-> Cplx(N(-i) // 2, N(2 * i - 3) // 5)])
        a == N("3/2,1/3")  x == N("5/7,9/4")  r == Resid(a, zs, ps)
    IN Fails({<<"partial-fractions", Close(FromZp(a, zs, ps, x), PoleSum(x, ps, r) ++ (IF sc.nz = sc.m THEN a ELSE Zero), "1e-60", 0)>>})

\* every element of u has a partner in v: same multiset up to tolerance (the given roots are well separated)
Matches(u, v, t) == Len(u) = Len(v) /\ \A i \in DOMAIN v : Cardinality({k \in DOMAIN u : AClose(u[k], v[i], t)}) = 1
Coarse == N("1e-5")
RowCont(ev, r) ==
    LET zs == Vec(r.zs)  ps == Vec(r.ps)  a == N(r.a)  x == Vec(r.x)
        oz == Vec(r.oz)  op == Vec(r.op)  ores == Vec(r.ores)  oa == N(r.oa)
        want == Strict([i \in DOMAIN x |-> FromZp(a, zs, ps, x[i])])
        res == Resid(a, zs, ps)  scale == MaxMag(want)
        mom(k, w, p) == SumN([i \in DOMAIN p |-> w[i] ** PowN(p[i], k)])
        given == Vec(r.moments)  om == Vec(r.om)
    IN Fails({<<"number", Len(op) = Len(ps) /\ Len(oz) = Len(zs)>>,
              <<"poles", Matches(op, ps, Coarse)>>, <<"zeros", Matches(oz, zs, Coarse ** 10)>>,
              <<"amplitude", Close(oa, a, Coarse, 0)>>,
              <<"residues", \A i \in DOMAIN ps : \A k \in DOMAIN op : AClose(op[k], ps[i], Coarse) => AClose(ores[k], res[i], Coarse ** 10 ** (One ++ MaxMag(res)))>>,
              <<"zero-pole", VecClose(Vec(r.ozp), want, 0, Coarse ** 10 ** scale)>>,
              <<"pole-form", VecClose(Vec(r.opf), want, 0, Coarse ** 10 ** scale)>>,
              <<"constrained", \A k \in DOMAIN given : AClose(mom(k - 1, ores, op), given[k], N("1e-9") ** (One ++ SumN([i \in DOMAIN op |-> Mag(ores[i] ** PowN(op[i], k - 1))])))>>,
              <<"moments", \A k \in DOMAIN om : AClose(om[k], mom(k - 1, ores, op), N("1e-12") ** (N("1e-300") ++ SumN([i \in DOMAIN op |-> Mag(ores[i] ** PowN(op[i], k - 1))])))>>})
RowRoots(ev, r) == Fails({<<ev.op, Matches(Vec(r.o), IF ev.op = "poles" THEN Vec(r.ps) ELSE Vec(r.zs), Coarse)>>})
RowAsym(ev, r) ==
    LET z == Vec(r.z)  f == Vec(r.f)  zs == Vec(r.zs)  ps == Vec(r.ps)  w == Vec(r.w)
        q == Strict([i \in DOMAIN z |-> f[i] // FromZp(One, zs, ps, z[i])])  n == Len(z)
        mean == SumN([i \in DOMAIN q |-> w[i] ** q[i]]) // SumN(w)
        dev == SumN([i \in DOMAIN q |-> w[i] ** Sq(Mag(q[i] -- mean))])
        std == SqrtN(IF ev.weighted THEN dev // SumN(w) ELSE dev // (n - 1))
    IN Fails({<<"mean", AClose(N(r.mean), mean, N("1e-12") ** MaxMag(q))>>, <<"deviation", AClose(N(r.std), std, N("1e-9") ** std ++ (N("1e-10") ** MaxMag(q)))>>})
RowRes(ev, r) ==
    LET z == Vec(r.z)  f == Vec(r.f)  ps == Vec(r.ps)  w == Vec(r.w)  x == Vec(r.o)  d == Vec(r.moments)
        A == Strict([i \in DOMAIN z |-> [k \in DOMAIN ps |-> w[i] // (z[i] -- ps[k])]])
        b == Strict([i \in DOMAIN z |-> w[i] ** f[i]])
        C == Strict([k \in DOMAIN d |-> [j \in DOMAIN ps |-> PowN(ps[j], k - 1)]])
        want == Strict(ConstrLstsq(A, b, C, d))
        rest == VSub(MatVec(A, x), b)
    IN IF Len(x) # Len(ps) THEN {"number"} ELSE Fails({<<"optimum", VecClose(x, want, 0, N("1e-8") ** (One ++ MaxMag(want)))>>,
              <<"residual", AClose(N(r.resid), SqrtN(VNorm2(rest)), N("1e-9") ** (SqrtN(VNorm2(b)) ++ MaxMag(x)))>>})
RowApprox(ev, r) ==
    LET zs == Vec(r.zs)  ps == Vec(r.ps)  w == Vec(r.res)  a == N(r.a)  x == Vec(r.x)  om == Vec(r.om)
    IN Fails({<<"zero-pole", \A i \in DOMAIN x : Close(Vec(r.ozp)[i], FromZp(a, zs, ps, x[i]), "1e-12", 0)>>,
              <<"pole-form", \A i \in DOMAIN x : AClose(Vec(r.opf)[i], PoleSum(x[i], ps, w) ++ (IF Len(zs) = Len(ps) THEN a ELSE Zero), N("1e-12") ** (Mag(a) ++ SumN([k \in DOMAIN ps |-> Mag(w[k] // (x[i] -- ps[k]))])))>>,
              <<"moments", \A k \in DOMAIN om : AClose(om[k], SumN([i \in DOMAIN ps |-> w[i] ** PowN(ps[i], k - 1)]), N("1e-12") ** SumN([i \in DOMAIN ps |-> Mag(w[i] ** PowN(ps[i], k - 1))]))>>})
C21Abs0(session) == 0
C21Step(st, ev) ==
    [st |-> st, bad |->
      CASE ev.op = "continuation" -> LET F(r) == RowCont(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "number_poles" -> IF ev.exc # "" THEN {"raised-" \o ev.exc} ELSE IF ev.got = ev.m THEN {} ELSE {"number"}
        [] ev.op \in {"poles", "zeros"} -> LET F(r) == RowRoots(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "asymptotic" -> LET F(r) == RowAsym(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "residues" -> IF ev.over THEN RaisesOneOf(ev, {"ValueError"}) ELSE LET F(r) == RowRes(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "approx" -> LET F(r) == RowApprox(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "reject" -> RaisesOneOf(ev, {ev.want})]
=============================================================================
