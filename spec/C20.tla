-------------------------------- MODULE C20 ---------------------------------
(***************************************************************************)
(* Pade and quadratic Hermite-Pade approximants from Taylor coefficients.  *)
(***************************************************************************)
EXTENDS Taylor, Run

Deg == 0..4
SeriesKinds == {"real", "complex", "int", "leading", "rational", "poly", "zero"}
C20Scenarios ==
       [op : {"pade", "pade-fast", "pade_lstsq", "pader"}, num : Deg, den : Deg, series : SeriesKinds, extra : {0, 3}]
  \cup [op : {"pade", "pade_lstsq", "pader"}, num : {2, 9}, den : {7, 10}, series : {"real", "complex"}, extra : {0, 3}]
  \cup [op : {"rational"}, via : {"pade", "pade_lstsq", "pader"}, n0 : 0..3, d0 : 0..3, en : 0..2, ed : 0..2, x : {"scalar", "array", "2d"}]
  \cup [op : {"hermite2", "hermite2_lstsq"}, p : 0..3, q : 0..3, r : 0..3, series : {"real", "complex", "int", "leading", "sqrt", "zero"}, extra : {0, 2}, fix : {"none", "first", "last", "-1", "-2"}]
  \cup [op : {"branches", "eval"}, via : {"taylor", "lstsq", "direct"}, p : 0..3, q : 0..3, r : 0..2, series : {"real", "complex", "sqrt"}, x : {"scalar", "0d", "array", "2d", "real"}]
  \cup [op : {"algebraic"}, via : {"taylor", "lstsq"}, da : 0..2, db : 0..1, ep : 0..2, eq : 0..2, er : 0..1, x : {"scalar", "array"}]
  \cup [op : {"reject"}, via : {"pade", "pade-fast", "pade_lstsq", "pader", "hermite2", "hermite2_lstsq"}, a : 0..3, b : 0..3, c : 0..1, missing : {0, 1, 2}]

Sample(n) == Strict([i \in 1..n |-> Cplx(N((i * i * 5 + 2) % 11) // 7, N((i * 3) % 5) // 4)])
C20SelfCheck(sc) ==
    CASE sc.op = "pade" /\ sc.series = "complex" /\ sc.extra = 0 ->
          LET a == Sample(sc.num + sc.den + 1)  s == PadeSolve(a, sc.num, sc.den)
          IN Fails({<<"order", Vanishes(PadeResidual(a, s.p, s.q), sc.num + sc.den + 1, "1e-60")>>})
      [] sc.op = "rational" /\ sc.via = "pade" /\ sc.x = "scalar" -> \* a rational function is its own approximant
          LET n == Sample(sc.n0 + 1)  d == <<One>> \o SubSeq(Sample(sc.d0 + 3), 4, sc.d0 + 3)  a == RatSeries(n, d, 12)
          IN Fails({<<"expansion", Vanishes(PadeResidual(a, n, d), 12, "1e-60")>>})
      [] sc.op = "algebraic" /\ sc.via = "taylor" /\ sc.x = "scalar" -> \* (A + B sqrt(1+cx)) solves its quadratic equation
          LET c == N("3/7")  A == Sample(sc.da + 1)  B == SubSeq(Sample(sc.db + 3), 3, sc.db + 3)  s == SqrtSeries(c, 12)
              f == Strict([k \in 1..12 |-> PolyAt(A, k - 1) ++ Conv(B, s, k - 1)])
              AA == PolyMul(A, A)  BB == PolyMul(PolyMul(B, B), <<One, c>>)
              P == Strict([k \in 1..MaxI(Len(AA), Len(BB)) |-> PolyAt(AA, k - 1) -- PolyAt(BB, k - 1)])
          IN Fails({<<"equation", Vanishes(HermResidual(f, P, VScale(-2, A), <<One>>), 12, "1e-60")>>})
      [] OTHER -> {}

Eps == N("1e-12")
NonZero(v) == \E i \in DOMAIN v : ~Same(v[i], 0)
RowPade(ev, r) ==
    LET a == Vec(r.a)  p == Vec(r.p)  q == Vec(r.q)  n == ev.num  m == ev.den
        res == PadeResidual(a, p, q)  tol == Eps ** ev.loose ** Norm1(a) ** Norm1(q)
        used == n + m + 1
        \* gradient of the squared residual of the orders n+1.. with respect to q[j+1]
        Grad(j) == SumN([k \in 1..(Len(a) - n - 1) |-> Conj(IF n + k - j >= 0 THEN PolyAt(a, n + k - j) ELSE Zero) ** res[n + 1 + k]])
    IN Fails({<<"degrees", Len(p) <= n + 1 /\ Len(q) <= m + 1 /\ Len(q) >= 1>>, <<"denominator", NonZero(q) /\ AllFin(p) /\ AllFin(q)>>}
       \cup (CASE ev.op \in {"pade", "pade-fast"} -> {<<"order", Vanishes(res, used, tol)>>}
             [] ev.op = "pade_lstsq" -> {<<"lowest", Vanishes(res, n + 1, tol)>>, <<"normalised", Same(q[1], 1)>>,
                     <<"optimal", \A j \in 1..m : AClose(Grad(j), 0, N("1e-11") ** Sq(Norm1(a)) ** Norm1(q))>>}
             [] ev.op = "pader" -> \* a common factor x^l may have been cancelled
                   {<<"order", (\A k \in 1..(n + 1) : AClose(a[k], 0, N("1e-13") ** Norm1(a))) \/
                        \E l \in 0..MinI(n, m) : Len(p) <= n + 1 - l /\ Len(q) <= m + 1 - l /\ Vanishes(res, used - l, tol)>>,
                    <<"zero", (\A k \in 1..used : Same(a[k], 0)) => ~NonZero(p)>>}))
RowRat(ev, r) ==
    LET num == Vec(r.num)  den == Vec(r.den)  p == Vec(r.p)  q == Vec(r.q)  x == Vec(r.x)  o == Vec(r.o)
        n == ev.n0 + ev.en  m == ev.d0 + ev.ed
        lo == MinI(ev.en, ev.ed)
    IN Fails({<<"degrees", Len(p) <= n + 1 /\ Len(q) <= m + 1>>,
              <<"reduced", ev.via = "pader" => Len(p) \in (ev.n0 + 1)..(n + 1 - lo) /\ Len(q) \in (ev.d0 + 1)..(m + 1 - lo)>>,
              <<"identity", \A i \in DOMAIN x : AClose(Horner(q, x[i]) ** Horner(num, x[i]), Horner(p, x[i]) ** Horner(den, x[i]), N("1e-9") ** Norm1(q) ** Norm1(num) ** Norm1(den))>>,
              <<"value", Len(o) = Len(x) /\ \A i \in DOMAIN x : LET e == Horner(p, x[i]) // Horner(q, x[i]) IN Close(o[i], e, "1e-9", 0) \/ Lt(Mag(Horner(q, x[i])), Norm1(q) ** N("1e-5"))>>})
RowHerm(ev, r) ==
    LET a == Vec(r.a)  p == Vec(r.p)  q == Vec(r.q)  s == Vec(r.r)
        res == HermResidual(a, p, q, s)  tol == Eps ** HermScale(a, p, q, s)  b == Series2(a)
        zero == ~NonZero(a)
        c == q \o s  nq == ev.qd + 1
        Col(i, k) == IF i <= nq THEN (IF k - i + 1 >= 0 THEN PolyAt(a, k - i + 1) ELSE Zero) ELSE LET j == i - nq IN IF k - j + 1 >= 0 THEN PolyAt(b, k - j + 1) ELSE Zero
        Grad(i) == SumN([k \in 1..(Len(a) - ev.pd - 1) |-> Conj(Col(i, ev.pd + k)) ** res[ev.pd + 1 + k]])
        Scale(i) == SumN([k \in 1..(Len(a) - ev.pd - 1) |-> Mag(Col(i, ev.pd + k))]) ** HermScale(a, p, q, s)
        Stationary(f) == Same(c[f], 1) /\ \A i \in DOMAIN c \ {f} : AClose(Grad(i), 0, N("1e-11") ** Scale(i))
    IN IF Len(q) # ev.qd + 1 \/ Len(s) # ev.rd + 1 \/ Len(p) # ev.pd + 1 THEN {"degrees"}
       ELSE Fails({<<"nonzero", (NonZero(q) \/ NonZero(s)) /\ AllFin(p) /\ AllFin(q) /\ AllFin(s)>>,
              IF ev.op = "hermite2" THEN <<"order", Vanishes(res, ev.pd + ev.qd + ev.rd + 2, tol)>>
              ELSE <<"lowest", Vanishes(res, ev.pd + 1, tol)>>,
              <<"optimal", ev.op = "hermite2_lstsq" => (zero /\ Vanishes(res, Len(a), tol)) \/ (IF ev.fix > 0 THEN Stationary(ev.fix) ELSE \E f \in DOMAIN c : Stationary(f))>>})
\* both values solve the quadratic equation and they are its two roots
RowBranch(ev, r) ==
    LET p == Vec(r.p)  q == Vec(r.q)  s == Vec(r.r)  x == Vec(r.x)
        u == Vec(r.plus)  v == Vec(r.minus)
        Judge(i) == LET P == Horner(p, x[i])  Q == Horner(q, x[i])  S == Horner(s, x[i])
                        np == SumN([k \in DOMAIN p |-> Mag(p[k]) ** PowN(Mag(x[i]), k - 1)])  nq == SumN([k \in DOMAIN q |-> Mag(q[k]) ** PowN(Mag(x[i]), k - 1)])  ns == SumN([k \in DOMAIN s |-> Mag(s[k]) ** PowN(Mag(x[i]), k - 1)])
                        t == N("1e-12")
                        small == Lt(Mag(S), ns ** N("1e-6"))  \* r(x) = 0: one root is lost
                        disc == Sq(Q) -- (4 ** P ** S)
                        \* the sign in front of the principal square root, unless a rounding of the cut decides
                        d == SqrtN(disc)
                        cut == Lt(Re(disc), 0) /\ Lt(Mag(Im(disc)), (Sq(nq) ++ (4 ** np ** ns)) ** t)
                        near == Lt(Mag(disc), (Sq(nq) ++ (4 ** np ** ns)) ** N("1e-8"))
                        plus == (d -- Q) // (2 ** S)
                    IN IF small THEN {} ELSE Fails({
                        <<"sum", AClose((u[i] ++ v[i]) ** S, NegN(Q), t ** (nq ++ (ns ** (Mag(u[i]) ++ Mag(v[i])))))>>,
                        <<"product", AClose(u[i] ** v[i] ** S, P, t ** (np ++ (nq ** MaxN(Mag(u[i]), Mag(v[i]))) ++ (ns ** MaxN(Sq(Mag(u[i])), Sq(Mag(v[i])))))) \/ near>>,
                        <<"sign", near \/ AClose(plus, u[i], N("1e-6") ** (Mag(u[i]) ++ Mag(v[i]) ++ (nq // Mag(S)))) \/ (cut /\ AClose(plus, v[i], N("1e-6") ** (Mag(u[i]) ++ Mag(v[i]))))>>})
    IN UNION {Judge(i) : i \in DOMAIN x}
RowEval(ev, r) == \* the branch closer to the Pade approximant
    LET x == Vec(r.x)  o == Vec(r.o)  u == Vec(r.plus)  v == Vec(r.minus)  pn == Vec(r.pn)  pd == Vec(r.pd)
        Judge(i) == LET e == Horner(pn, x[i]) // Horner(pd, x[i])  du == Mag(u[i] -- e)  dv == Mag(v[i] -- e)
                        tie == Close(du, dv, "1e-6", 0) \/ ~IsFin(u[i]) \/ ~IsFin(v[i]) \/ Lt(Mag(Horner(pd, x[i])), Norm1(pd) ** N("1e-6"))
                    IN Fails({<<"is-branch", ~tie => Same(o[i], u[i]) \/ Same(o[i], v[i]) \/ Close(o[i], u[i], "1e-12", 0) \/ Close(o[i], v[i], "1e-12", 0)>>,
                              <<"closest", tie \/ Close(o[i], IF Lt(du, dv) THEN u[i] ELSE v[i], "1e-12", 0)>>})
    IN UNION {Judge(i) : i \in DOMAIN x}
RowAlg(ev, r) ==
    LET c == N(r.c)  A == Vec(r.ca)  B == Vec(r.cb)  x == Vec(r.x)  o == Vec(r.o)
    IN Fails({<<"function", \A i \in DOMAIN x : Close(o[i], Horner(A, x[i]) ++ (Horner(B, x[i]) ** SqrtN(One ++ (c ** x[i]))), "1e-6", "1e-6")>>})
C20Abs0(session) == 0
C20Step(st, ev) ==
    [st |-> st, bad |->
      CASE ev.op = "reject" -> IF ev.missing > 0 THEN RaisesOneOf(ev, {"ValueError"}) ELSE IF ev.exc = "" THEN {} ELSE {"raised-" \o ev.exc}
        [] ev.op \in {"pade", "pade-fast", "pade_lstsq", "pader"} ->
             IF ev.op = "pade-fast" /\ ev.exc = "LinAlgError" /\ ev.loose > 1 THEN {}  \* singular Toeplitz system
             ELSE LET F(r) == RowPade(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "rational" -> LET F(r) == RowRat(ev, r) IN JudgeRows(ev, F)
        [] ev.op \in {"hermite2", "hermite2_lstsq"} -> LET F(r) == RowHerm(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "branches" -> LET F(r) == RowBranch(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "eval" -> LET F(r) == RowEval(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "algebraic" -> LET F(r) == RowAlg(ev, r) IN JudgeRows(ev, F)]
=============================================================================
