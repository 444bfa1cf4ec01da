-------------------------------- MODULE C05 ---------------------------------
(* Bosonic Fourier transform tau -> iv. *)
EXTENDS Fourier, Run

NTau == {2, 3, 4, 5, 6, 7, 9, 12, 16, 21, 40, 101}
C05Scenarios == [op : {"tau2iv_dft", "tau2iv_ft_lin"}, n : NTau, batch : {"none", "vec", "mat"}, beta : {"one", "large", "int"}, data : {"random", "constant", "linear", "pole", "ramp", "ripple"}]
      \cup [op : {"tau2iv"}, n : NTau, batch : {"none", "vec", "mat"}, beta : {"one", "large", "int"}, data : {"random", "constant", "linear", "pole", "ramp", "ripple"}, fourier : {"default", "dft", "lin"}]
      \cup [op : {"tau2iv_dft", "tau2iv_ft_lin"}, n : {301}, batch : {"none"}, beta : {"one"}, data : {"random"}]
      \cup [op : {"tau2iv"}, n : {301}, batch : {"none"}, beta : {"large"}, data : {"pole"}, fourier : {"default", "dft"}]

Lin(n, a, b) == [j \in 1..n |-> a ++ ((b ** (j - 1)) // (n - 1))]
C05SelfCheck(sc) ==
    IF sc.n > 21 THEN {} ELSE
    LET b == N(3)  g == Lin(sc.n, N("1/3"), N("-5/7"))
    IN Fails({
       <<"constant", \A m \in 2..Len(TauLinB(Lin(sc.n, One, Zero), b)) : AClose(TauLinB(Lin(sc.n, One, Zero), b)[m], 0, "1e-80")>>,
       \* int_0^b (c + d t/b) exp(iv t) dt = d/(iv)
       <<"linear", LET v == TauLinB(g, b) IN /\ Close(v[1], b ** (N("1/3") -- N("5/14")), "1e-70", 0)
                     /\ \A m \in 2..Len(v) : Close(v[m], N("-5/7") // IvN(m - 1, b), "1e-70", 0)>> })

Row(ev, r) ==
    LET op == ev.op  g == Vec(r.g)  beta == N(r.beta)  o == Vec(r.o)  n == Len(g) - 1
        t == N("1e-11") ** MaxMag(g) ** beta ** 10
        Eq(name, v) == Fails({<<name \o "-length", Len(o) = Len(v)>>, <<name, VecClose(o, v, 0, t ++ Tiny)>>,
                              <<"zero-frequency", Len(o) > 0 /\ Close(o[1], v[1], 0, t ++ Tiny)>>})
        d == g[n + 1] -- g[1]
        flat == [j \in 1..(n + 1) |-> g[j] -- ((d ** (j - 1)) // n)]
        lint == [m \in 1..((n \div 2) + 1) |-> IF m = 1 THEN (d ** beta) // 2 ELSE d // IvN(m - 1, beta)]
    IN CASE op = "tau2iv_dft" -> Eq("riemann", TauRiemannB(g, beta))
         [] op = "tau2iv_ft_lin" -> Eq("linear", TauLinB(g, beta))
         [] op = "tau2iv" -> Eq("jump-corrected", IF ev.fourier = "dft" THEN VAdd(TauRiemannB(flat, beta), lint) ELSE TauLinB(g, beta))

C05Abs0(session) == <<>>
C05Step(st, ev) == [st |-> st, bad |-> LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
