------------------------------- MODULE Taylor -------------------------------
(***************************************************************************)
(* Truncated power series and the defining conditions of (Hermite-)Pade    *)
(* approximants.  A series is the sequence of its coefficients, lowest     *)
(* order first.                                                            *)
(***************************************************************************)
EXTENDS Kit

\* order-k coefficient of the product of polynomial q and series a
Conv(q, a, k) == SumN([j \in 1..MinI(k + 1, Len(q)) |-> q[j] ** PolyAt(a, k + 1 - j)])
Trunc(q, a) == Strict([k \in 1..Len(a) |-> Conv(q, a, k - 1)])
Series2(a) == Trunc(a, a)
Norm1(v) == SumN([i \in DOMAIN v |-> Mag(v[i])])
\* coefficients of q*f - p and p + q*f + r*f^2
PadeResidual(a, p, q) == Strict([k \in 1..Len(a) |-> Conv(q, a, k - 1) -- PolyAt(p, k - 1)])
HermResidual(a, p, q, r) == LET b == Series2(a) IN Strict([k \in 1..Len(a) |-> PolyAt(p, k - 1) ++ Conv(q, a, k - 1) ++ Conv(r, b, k - 1)])
HermScale(a, p, q, r) == Norm1(p) ++ (Norm1(q) ** Norm1(a)) ++ (Norm1(r) ** Sq(Norm1(a)))
Vanishes(res, n, tol) == \A k \in 1..MinI(n, Len(res)) : AClose(res[k], 0, tol)  \* the first n coefficients
\* coefficients of the expansion of n/d
RECURSIVE RatAcc(_, _, _, _)
RatAcc(n, d, k, acc) ==
    IF Len(acc) = k THEN acc
    ELSE LET m == Len(acc)  s == SumN([j \in 1..MinI(m, Len(d) - 1) |-> d[j + 1] ** acc[m + 1 - j]])
         IN RatAcc(n, d, k, Append(acc, (PolyAt(n, m) -- s) // d[1]))
RatSeries(n, d, k) == Strict(RatAcc(n, d, k, <<>>))
\* coefficients of (1 + c x)^(1/2)
RECURSIVE SqrtAcc(_, _, _)
SqrtAcc(c, k, acc) == IF Len(acc) = k THEN acc ELSE LET m == Len(acc) IN SqrtAcc(c, k, Append(acc, (acc[m] ** c ** (N(3 - 2 * m))) // (2 * m)))
SqrtSeries(c, k) == Strict(SqrtAcc(c, k, <<One>>))
\* the [n/m] approximant from the linear equations, with q(0) = 1
PadeSolve(a, n, m) ==
    LET A == Strict([i \in 1..m |-> [j \in 1..m |-> IF n + i - j >= 0 THEN PolyAt(a, n + i - j) ELSE Zero]])
        b == Strict([i \in 1..m |-> NegN(PolyAt(a, n + i))])
        q == <<One>> \o (IF m = 0 THEN <<>> ELSE SolveN(A, b))
    IN [q |-> q, p |-> Strict([k \in 1..(n + 1) |-> Conv(q, a, k - 1)])]
=============================================================================
