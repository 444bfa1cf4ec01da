-------------------------------- MODULE C06 ---------------------------------
(* Laplace transforms from real time to frequency: G(z) = int dt G(t) exp(izt). *)
EXTENDS Fourier, Run

NT == {2, 3, 4, 5, 6, 9, 12}
Zs == {"upper", "real", "zero", "tiny", "mixed", "big"}
Batch == {"none", "gf", "both", "mat"}
Sums == {1, 2, 3}
C06Scenarios ==
       [op : {"tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z"}, n : NT, z : Zs, batch : Batch, side : {"ret", "adv"}]
  \cup [op : {"tt2z_trapz-noneq"}, n : NT, z : Zs, batch : {"none", "gf"}, side : {"ret", "adv"}]
  \cup [op : {"tt2z_pade"}, k : Sums, extra : {0, 1}, quad : {"trapz", "simps"}, alg : {"pade", "pader", "default"}, batch : {"none", "gf"}, via : BOOLEAN]
  \cup [op : {"tt2z_pade-degree"}, k : {2, 3}, degree : {-2, -1, 0}, quad : {"trapz"}, batch : {"none", "gf"}]
  \cup [op : {"tt2z_lpz"}, k : Sums, extra : {0, 3}, quad : {"trapz"}, batch : {"none", "gf"}, order : {"given", "default"}]
  \cup [op : {"tt2z_herm2"}, d : {1, 2}, extra : {0}, quad : {"trapz", "simps"}, batch : {"none", "gf"}]
  \cup [op : {"tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z"}, n : {33, 64, 129}, z : {"upper", "tiny"}, batch : {"none", "gf"}, side : {"ret", "adv"}]
  \cup [op : {"reject-half-plane"}, n : {3, 5}, case : {"ret-lower", "adv-upper", "mixed-z", "mixed-t", "one-bad-z", "adv-mixed-z", "adv-one-bad-z", "one-bad-t", "adv-one-bad-t"}]
  \cup [op : {"reject-nonequidistant"}, n : {4, 7}, backend : {"tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"}]
  \cup [op : {"reject-quad"}, n : {5}, backend : {"tt2z_pade", "tt2z_herm2", "tt2z_lpz"}]
  \cup [op : {"tt2z-empty"}, n : {0, 3}, case : {"noz", "nogf"}]
  \cup [op : {"tt2z-boundary"}, n : {3, 6}, z : {"real", "zero"}, side : {"ret", "adv"}]

Trapz(t, g, z) == SumN([j \in 1..(Len(t) - 1) |->
      ((t[j + 1] -- t[j]) ** ((g[j] ** ExpN(IU ** z ** t[j])) ++ (g[j + 1] ** ExpN(IU ** z ** t[j + 1])))) // 2])
\* Simpson weights 1 4 2 4 2 ... of a truncated infinite integral (no end-point correction)
SimpsW(j) == IF j = 1 THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2
Simps(t, g, z) == ((t[2] -- t[1]) // 3) ** SumN([j \in DOMAIN t |-> (SimpsW(j) ** g[j]) ** ExpN(IU ** z ** t[j])])
\* exact transform of the linear interpolant
LinLaplace(t, g, z) == LinFourier(g, IU ** z, t[1], (t[Len(t)] -- t[1]) // (Len(t) - 1))

\* infinite sums for g_j = sum_k a_k q_k^j with y = exp(i z dt)
Geo(a, q, y) == SumN([k \in DOMAIN a |-> a[k] // (One -- (q[k] ** y))])
TrapzInf(a, q, y, dt) == dt ** (Geo(a, q, y) -- (SumN(a) // 2))
GeoEven(a, q, y) == SumN([k \in DOMAIN a |-> a[k] // (One -- Sq(q[k] ** y))])
GeoOdd(a, q, y) == SumN([k \in DOMAIN a |-> (a[k] ** q[k] ** y) // (One -- Sq(q[k] ** y))])
SimpsInf(a, q, y, dt) == (dt // 3) ** ((2 ** GeoEven(a, q, y)) ++ (4 ** GeoOdd(a, q, y)) -- SumN(a))
\* root of p + q f + r f^2 closest to the partial sum
QuadRoot(p, q, r, near) ==
    LET d == SqrtN(Sq(q) -- (4 ** p ** r))
        f1 == (d -- q) // (2 ** r)   f2 == NegN(d ++ q) // (2 ** r)
    IN IF Lt(Mag(f1 -- near), Mag(f2 -- near)) THEN f1 ELSE f2

C06SelfCheck(sc) ==
    LET a == <<N("1/2"), N("1/3,1/7")>>  q == <<N("1/3"), N("-1/4,1/5")>>  y == N("2/5,1/5")
        big == 200
        g == [j \in 1..big |-> SumN([k \in DOMAIN a |-> a[k] ** PowN(q[k], j - 1)])]
    IN IF sc.op \notin {"tt2z_pade", "tt2z_lpz"} THEN
         LET t == <<Zero, Half, One>>  h == <<One, Zero, NegN(One)>> z == N("0,1")
         IN \* int_0^1 (1 - 2t) e^{-t} dt = 3/e - 1
            Fails({<<"lin-exact", Close(LinLaplace(t, h, z), (3 // ExpN(1)) -- 1, "1e-60", 0)>>,
                   <<"lin-trapz-at-0", Close(LinLaplace(t, h, N(0)), Trapz(t, h, N(0)), "1e-60", "1e-60")>>})
       ELSE Fails({
         <<"trapz-inf", Close(SumN([j \in 1..big |-> (IF j = 1 THEN Half ELSE One) ** g[j] ** PowN(y, j - 1)]), TrapzInf(a, q, y, One), "1e-40", 0)>>,
         <<"simps-inf", Close(SumN([j \in 1..big |-> (SimpsW(j) ** g[j] ** PowN(y, j - 1)) // 3]), SimpsInf(a, q, y, One), "1e-40", 0)>> })

Row(ev, r) ==
    LET op == ev.op  t == Vec(r.t)  z == N(r.z)  o == N(r.o)
        g == Vec(r.g)
        m == SumN([j \in DOMAIN g |-> Mag(g[j] ** ExpN(IU ** z ** t[j]))]) ** Mag(t[Len(t)] -- t[1])
        tol == (N("1e-11") ** m ** (One ++ Mag(z ** t[Len(t)]) ++ Mag(z ** t[1]))) ++ Tiny
        dt == (t[Len(t)] -- t[1]) // (Len(t) - 1)
        Val(name, v, e) == Fails({<<name, Close(o, v, 0, e)>>})
    IN CASE op \in {"tt2z_trapz", "tt2z_trapz-noneq"} -> Val("trapz", Trapz(t, g, z), tol)
         [] op = "tt2z_simps" -> Val("simps", Simps(t, g, z), tol ** 4)
         [] op \in {"tt2z_lin", "tt2z", "tt2z-boundary"} -> Val("linear", LinLaplace(t, g, z), tol)
         [] op \in {"tt2z_pade", "tt2z_lpz", "tt2z_pade-degree"} ->
              LET a == Vec(r.a)  q == Vec(r.q)  y == ExpN(IU ** z ** dt)
                  v == IF ev.quad = "simps" THEN SimpsInf(a, q, y, dt) ELSE TrapzInf(a, q, y, dt)
              IN Val("infinite-sum", v, N("1e-6") ** (Mag(v) ++ Mag(dt ** SumMag(a))))
         [] op = "tt2z_herm2" ->
              LET y == ExpN(IU ** z ** dt)
                  near == Horner(Vec(r.series), y)
                  v == QuadRoot(Horner(Vec(r.p), y), Horner(Vec(r.q), y), Horner(Vec(r.r), y), near)
              IN Val("algebraic-branch", v, N("1e-6") ** (One ++ Mag(v)))

C06Abs0(session) == <<>>
C06Step(st, ev) == [st |-> st, bad |->
    IF ev.op \in {"reject-half-plane", "reject-nonequidistant", "reject-quad"} THEN RaisesOneOf(ev, {"ValueError"})
    ELSE IF ev.op = "tt2z-empty" THEN Fails({<<"empty", ev.exc = "" /\ ev.sh>>})
    ELSE LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
