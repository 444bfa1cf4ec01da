-------------------------------- MODULE C18 ---------------------------------
(***************************************************************************)
(* Linear prediction.  A series obeys the recurrence with coefficients a   *)
(* iff x[n] + sum_i a[i] x[n-i] = 0.  A session holds the series known so  *)
(* far; predicting appends to it.                                          *)
(***************************************************************************)
EXTENDS Kit, Run

Dts == {"real", "complex"}
C18Scenarios ==
       [op : {"covar"}, data : {"noise", "exact", "exact-low", "exact-weak"}, dtype : Dts, order : {1, 2, 3, 5}, len : {"min", "odd", "long"}, shape : {"none", "3", "2x2"}, rcond : {"none", "given"}]
  \* fewer exponentials than the order, and noise below the cutoff of the singular values
  \cup [op : {"covar"}, data : {"cut"}, dtype : Dts, order : {3, 4, 5}, len : {"odd", "long"}, shape : {"none", "3"}, rcond : {"cut"}]
  \cup [op : {"covar"}, data : {"noise"}, dtype : Dts, order : {4, 6}, len : {"under"}, shape : {"none", "3"}, rcond : {"none"}]
  \cup [op : {"burg"}, data : {"noise", "damped"}, dtype : Dts, order : {1, 2, 3, 6}, len : {"min", "odd", "long"}, shape : {"none", "3", "2x2"}, rcond : {"none"}]
  \cup [op : {"burg"}, data : {"noise"}, dtype : Dts, order : {12, 24}, len : {"min", "odd"}, shape : {"none"}, rcond : {"none"}]
  \cup [op : {"predict"}, roots : {"faint"}, dtype : Dts, order : {2, 3, 5}, num : {7, 30}, shape : {"none", "3"}, stable : {"default", "false", "true"}]
  \cup [op : {"predict"}, roots : {"stable", "growing", "mixed", "none-kept", "marginal", "edge"}, dtype : Dts, order : {1, 2, 3, 5}, num : {0, 1, 7}, shape : {"none", "3", "2x2", "bcast"}, stable : {"default", "false", "true"}]
  \cup [op : {"predict"}, roots : {"stable", "marginal", "faint"}, dtype : Dts, order : {2, 5}, num : {60, 150}, shape : {"none"}, stable : {"default", "false", "true"}]
  \cup [op : {"burg"}, data : {"noise"}, dtype : {"int", "uint8"}, order : {1, 2, 3}, len : {"odd"}, shape : {"none", "3"}, rcond : {"none"}]
  \cup [op : {"covar"}, data : {"noise"}, dtype : {"int", "uint8"}, order : {1, 2, 3}, len : {"odd"}, shape : {"none", "3"}, rcond : {"none"}]
  \cup [op : {"predict"}, roots : {"stable", "marginal", "mixed"}, dtype : {"int", "uint8", "real-cplx"}, order : {1, 2, 3}, num : {1, 7}, shape : {"none", "3", "bcast"}, stable : {"false", "true"}]
  \cup [op : {"continue"}, method : {"covar", "burg"}, dtype : Dts, order : {1, 2, 4}, shape : {"none", "3"}, seq : {<<3>>, <<1, 1, 1>>, <<0, 4>>, <<2, 5>>}]
  \cup [op : {"companion"}, dtype : {"int", "real", "complex"}, order : {1, 2, 3, 6}, shape : {"none", "3", "2x2"}]
  \cup [op : {"reject"}, what : {"order=N", "order>N", "order=N-1", "num=-1", "num=-7", "num=0", "companion-short", "companion-zero", "companion-zero-batch", "companion-ok"}]

\* residuals of the recurrence a (a[i] multiplies x[n-i]) on the data it has to explain
Design(x, order) == Strict([n \in 1..(Len(x) - order) |-> [i \in 1..order |-> x[n + order - i]]])
Rhs(x, order) == Strict([n \in 1..(Len(x) - order) |-> NegN(x[n + order])])
Norm(v) == SqrtN(VNorm2(v))
\* Burg's method from its definition: the reflection coefficient of step k minimises the mean of forward and backward errors of order k
Fwd(x, a, n) == x[n] ++ SumN([i \in DOMAIN a |-> a[i] ** x[n - i]])
Bwd(x, a, n) == x[n - Len(a)] ++ SumN([i \in DOMAIN a |-> Conj(a[i]) ** x[n - Len(a) + i]])
RECURSIVE Burg(_, _, _, _)
Burg(x, order, a, rho) ==
    IF Len(a) = order THEN [a |-> a, rho |-> rho] ELSE
    LET k == Len(a) + 1
        f == Strict([n \in 1..(Len(x) - k) |-> Fwd(x, a, n + k)])
        b == Strict([n \in 1..(Len(x) - k) |-> Bwd(x, a, n + k - 1)])
        kk == NegN(2 ** SumN([n \in DOMAIN f |-> f[n] ** Conj(b[n])])) // (VNorm2(f) ++ VNorm2(b))
        a1 == Strict([i \in 1..k |-> IF i = k THEN kk ELSE a[i] ++ (kk ** Conj(a[k - i]))])
    IN Burg(x, order, a1, rho ** (One -- Sq(Mag(kk))))
BurgOf(x, order) == Burg(x, order, <<>>, VNorm2(x) // Len(x))
\* reflection coefficients of a predictor (step-down recursion)
RECURSIVE Reflect(_, _)
Reflect(a, acc) ==
    IF Len(a) = 0 THEN acc ELSE
    LET k == Len(a)  kk == a[k]  d == One -- Sq(Mag(kk))
    IN Reflect(Strict([i \in 1..(k - 1) |-> (a[i] -- (kk ** Conj(a[k - i]))) // d]), acc \o <<kk>>)
RECURSIVE Extend(_, _, _)
Extend(x, a, num) == IF num = 0 THEN x ELSE Extend(Append(x, NegN(SumN([i \in DOMAIN a |-> a[i] ** x[Len(x) + 1 - i]]))), a, num - 1)
\* the last data written as sum_j c_j L_j^k, k = -(order-1) .. 0
Amplitudes(x, L) == LET o == Len(L) IN SolveN([k \in 1..o |-> [j \in 1..o |-> PowN(L[j], -(k - 1))]], [k \in 1..o |-> x[Len(x) - k + 1]])
Kept(x, L, k) == LET c == Strict(Amplitudes(x, L)) IN SumN([j \in DOMAIN L |-> IF Le(Mag(L[j]), 1) THEN c[j] ** PowN(L[j], k) ELSE Zero])

C18SelfCheck(sc) ==
    IF sc.op # "burg" \/ sc.shape # "none" \/ sc.data # "noise" \/ sc.len # "odd" THEN {} ELSE
    LET x == Strict([i \in 1..(2 * sc.order + 5) |-> Cplx(N((i * i * 7) % 11) // 5, IF sc.dtype = "real" THEN Zero ELSE N((i * 5) % 7) // 3)])
        b == BurgOf(x, sc.order)
        r == Reflect(b.a, <<>>)
        L == <<N("1/2,1/3"), N("-2/3"), N("0,3/2")>>
        p == Strict(PolyFromRoots(L))  a == <<p[3], p[2], p[1]>>
        y == Extend(<<N(1), N("2,1"), N("1/2")>>, a, 4)
    IN Fails({<<"burg-is-stable", \A i \in DOMAIN r : Lt(Mag(r[i]), 1)>>,
              <<"variance", Lt(0, b.rho) /\ Le(b.rho, VNorm2(x) // Len(x))>>,
              <<"exponentials", LET c == Strict(Amplitudes(<<y[1], y[2], y[3]>>, L)) IN AClose(SumN([j \in 1..3 |-> c[j] ** PowN(L[j], 4)]), y[7], "1e-40")>>})

RowCovar(ev, r) ==
    LET x == Vec(r.x)  a == Vec(r.a)  o == ev.order
        X == Design(x, o)  b == Rhs(x, o)
        res == VSub(MatVec(X, a), b)
        sc == Norm(x)
        best == IF ev.data # "noise" THEN <<>>
                ELSE IF Len(x) - o >= o THEN ConstrLstsq(X, b, <<>>, <<>>)
                ELSE MatVec(Adj(X), SolveN(MatMul(X, Adj(X)), b)) \* minimal norm
        L == Vec(r.roots)
        A == Strict([j \in DOMAIN L |-> [i \in 1..o |-> PowN(L[j], -i)]])
        \* the smallest predictor of all the exponentials
        small == IF Len(L) = 0 THEN <<>> ELSE MatVec(Adj(A), SolveN(MatMul(A, Adj(A)), [j \in DOMAIN L |-> NegN(One)]))
    IN Fails({<<"length", Len(a) = o>>, <<"rho", Close(N(r.rho), Norm(res), "1e-8", N("1e-11") ** sc ** (One ++ Norm(a)))>>,
              <<"cutoff", ev.data = "cut" => VecClose(a, small, 0, N("1e-4") ** (One ++ MaxMag(small)))>>,
              <<"reproduces", ev.data \notin {"noise", "cut"} => Le(Norm(res), N("1e-9") ** sc ** (One ++ Norm(a)))>>,
              <<"optimal", ev.data = "noise" => (Len(x) - o = o \/ VecClose(a, best, "1e-6", N("1e-7") ** MaxMag(best)))>>,
              <<"least-squares", ev.data = "noise" => Le(Norm(res), (N("1.0000001") ** Norm(VSub(MatVec(X, best), b))) ++ (N("1e-8") ** sc ** (One ++ Norm(a))))>>})
RowBurg(ev, r) ==
    LET x == Vec(r.x)  b == BurgOf(x, ev.order)  a == Vec(r.a)  k == Reflect(b.a, <<>>)
        worst == One // MinN(One, ProdN([i \in DOMAIN k |-> One -- Sq(Mag(k[i]))]))
        q == Reflect(a, <<>>)
    IN Fails({<<"burg-coefficients", VecClose(a, b.a, 0, N("1e-10") ** worst)>>,
              <<"burg-variance", Close(N(r.rho), b.rho, N("1e-10") ** worst, 0)>>,
              <<"burg-stable", \A i \in DOMAIN q : Le(Mag(q[i]), N("1.000001"))>>})
RowPredict(ev, r) ==
    LET x == Vec(r.x)  a == Vec(r.a)  o == Vec(r.o)  n == Len(x)  L == Vec(r.roots)
        y == Extend(x, a, ev.num)
        c == Strict(Amplitudes(x, L))
        big == (One ++ MaxMag(c)) ** PowN(MaxN(One, MaxMag(L)), ev.num)
    IN Fails({<<"length", Len(o) = n + ev.num>>, <<"data-kept", Len(o) >= n /\ \A i \in 1..n : Same(o[i], x[i])>>})
       \cup (IF Len(o) # n + ev.num THEN {} ELSE
             IF ~ev.stable THEN Fails({<<"recurrence", \A k \in 1..ev.num : AClose(o[n + k], y[n + k], N("1e-10") ** big)>>})
             ELSE Fails({<<"decaying-part", \A k \in 1..ev.num : AClose(o[n + k], Kept(x, L, k), (IF ev.faint THEN N("1e-11") ELSE N("1e-8")) ** (One ++ MaxMag(c)))>>}))
RowCont(ev, r) == \* state: what was predicted so far must be extended, not changed
    LET x == Vec(r.x)  o == Vec(r.o)  a == Vec(r.a)  n == Len(x)
        y == Extend(x, a, ev.num)
    IN Fails({<<"history-kept", \A i \in 1..n : Same(o[i], x[i])>>,
              <<"continuation", Len(o) = n + ev.num /\ \A k \in 1..ev.num : AClose(o[n + k], y[n + k], N("1e-10") ** MaxMag(y))>>,
              <<"model", Len(r.truth) = 0 \/ \A k \in 1..ev.num : AClose(o[n + k], N(r.truth[n + k]), N("1e-6"))>>})
RowComp(ev, r) ==
    LET a == Vec(r.a)  o == Mat(r.o)  n == Len(a) - 1
    IN Fails({<<"first-row", \A j \in 1..n : Close(o[1][j], NegN(a[j + 1] // a[1]), "1e-14", 0)>>,
              <<"sub-diagonal", \A i \in 2..n : \A j \in 1..n : Same(o[i][j], IF i = j + 1 THEN 1 ELSE 0)>>})

C18Abs0(session) == <<>>
C18Step(st, ev) ==
    CASE ev.op = "covar" -> [st |-> st, bad |-> LET F(r) == RowCovar(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "burg" -> [st |-> st, bad |-> LET F(r) == RowBurg(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "predict" -> [st |-> st, bad |-> LET F(r) == RowPredict(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "continue" -> \* the series handed in is the one the previous step returned
            [st |-> [i \in DOMAIN ev.rows |-> ev.rows[i].o],
             bad |-> (LET F(r) == RowCont(ev, r) IN JudgeRows(ev, F)) \cup
                     Fails({<<"history", st = <<>> \/ \A i \in DOMAIN ev.rows : ev.rows[i].x = st[i]>>})]
      [] ev.op = "companion" -> [st |-> st, bad |-> LET F(r) == RowComp(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "reject" -> [st |-> st, bad |-> IF ev.must THEN RaisesOneOf(ev, {"ValueError"}) ELSE Fails({<<"accepted", ev.exc = "">>})]
=============================================================================
