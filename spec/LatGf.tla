------------------------------- MODULE LatGf --------------------------------
(***************************************************************************)
(* Exact lattice Green's functions on the whole plane.                     *)
(*                                                                         *)
(* F(x) = sum_k a_k x^k with a_k the numbers of closed walks obeys a       *)
(* recurrence P0(k) a_k + P1(k-1) a_(k-1) + P2(k-2) a_(k-2) = 0, i.e. the  *)
(* differential equation [P0(T) + x P1(T) + x^2 P2(T)] F = 0, T = x d/dx.  *)
(* F is analytic on the plane without the positive real axis; its value is *)
(* found by Taylor steps along the negative axis and then along the circle *)
(* |x| = const.  The end point may lie on either side of the cut, which    *)
(* gives the limit G(eps + i0).                                            *)
(***************************************************************************)
EXTENDS Lattice

\* recurrences: p0, p1, p2 polynomials in k (lowest order first), ord: order of the equation, sing: singular points, a: a_0, a_1
Rec0(name, g) ==
    CASE name = "square" -> [ord |-> 2, p |-> <<<<0, 0, 1, 0>>, <<-4, -16, -16, 0>>, <<0, 0, 0, 0>>>>, sing |-> <<N("1/16")>>, a0 |-> One, a1 |-> N(4)]
      [] name = "honeycomb" -> [ord |-> 2, p |-> <<<<0, 0, 1, 0>>, <<-3, -10, -10, 0>>, <<9, 18, 9, 0>>>>, sing |-> <<One, N("1/9")>>, a0 |-> One, a1 |-> N(3)]
      [] name = "sc" -> [ord |-> 3, p |-> <<<<0, 0, 0, 1>>, <<-6, -32, -60, -40>>, <<108, 396, 432, 144>>>>, sing |-> <<N("1/4"), N("1/36")>>, a0 |-> One, a1 |-> N(6)]
      [] name = "diamond" -> [ord |-> 3, p |-> <<<<0, 0, 0, 1>>, <<-4, -18, -30, -20>>, <<64, 192, 192, 64>>>>, sing |-> <<N("1/4"), N("1/16")>>, a0 |-> One, a1 |-> N(4)]
      [] name = "bcc" -> [ord |-> 3, p |-> <<<<0, 0, 0, 1>>, <<-8, -48, -96, -64>>, <<0, 0, 0, 0>>>>, sing |-> <<N("1/64")>>, a0 |-> One, a1 |-> N(8)]
      [] name = "rectangular" -> \* hopping 1 and sqrt(g)
           LET s == 2 ** (One ++ g)  d == 4 ** Sq(One -- g)  r == SqrtN(g) IN
           [ord |-> 2, p |-> <<<<0, 0, 1, 0>>, <<NegN(s), NegN(4 ** s), NegN(4 ** s), 0>>, <<3 ** d, 8 ** d, 4 ** d, 0>>>>,
            sing |-> <<One // (4 ** Sq(One ++ r))>> \o (IF Same(g, 1) THEN <<>> ELSE <<One // (4 ** Sq(One -- r))>>), a0 |-> One, a1 |-> s]

Rec(name, gn) == LET r == Rec0(name, gn.g) IN [ord |-> r.ord, p |-> r.p, sing |-> r.sing, a0 |-> r.a0, a1 |-> r.a1, n |-> gn.n]
At(c, k) == Horner(c, N(k))
RECURSIVE SerAcc(_, _, _)
SerAcc(rec, n, a) == IF Len(a) > n THEN a ELSE
    LET k == Len(a) IN
    SerAcc(rec, n, Append(a, NegN((At(rec.p[2], k - 1) ** a[k]) ++ (IF k >= 2 THEN At(rec.p[3], k - 2) ** a[k - 1] ELSE Zero)) // At(rec.p[1], k)))
Series(rec, n) == SerAcc(rec, n, <<rec.a0>>)

\* P(T) = sum_i e_i x^i D^i
Falling(c) == LET c0 == N(c[1])  c1 == N(c[2])  c2 == N(c[3])  c3 == N(c[4]) IN <<c0, c1 ++ c2 ++ c3, c2 ++ (3 ** c3), c3>>
\* coefficients of (1+u)^i (A + B (1+u) + C (1+u)^2) in u, of length i + 3
Bin(n, k) == IF k < 0 \/ k > n THEN 0 ELSE CASE k = 0 -> 1 [] k = n -> 1 [] n = 2 -> 2 [] n = 3 -> 3 [] n = 4 -> (IF k = 2 THEN 6 ELSE 4) [] n = 5 -> (IF k \in {1, 4} THEN 5 ELSE 10)
Local(rec, x0) ==
    LET E == [l \in 1..3 |-> VScale(PowN(x0, l - 1), Falling(rec.p[l]))]
    IN [i \in 1..(rec.ord + 1) |-> [m \in 1..(i + 2) |->
            (E[1][i] ** Bin(i - 1, m - 1)) ++ (E[2][i] ** Bin(i, m - 1)) ++ (E[3][i] ** Bin(i + 1, m - 1))]]
\* Taylor coefficients of a solution of sum_i q_i(u) D^i f = 0, q_i given by q[i+1]; f(0), f'(0), ... / i! given
Value(f, h) == Horner(f, h)
\* state: base point x and scaled Taylor coefficients x^i F^(i)(x)/i!, i < ord
Hop(rec, s, x1) ==
    LET h == (x1 // s.x) -- 1
        f == OdeTaylor(Local(rec, s.x), s.f, rec.n)
    IN [x |-> x1, f |-> LET t == TaylorShift(f, h, rec.ord) IN [i \in 1..rec.ord |-> PowN(One ++ h, i - 1) ** t[i]]]
\* distance to the closest singularity relative to |x|
Rel(rec, x) == LET d == [i \in DOMAIN rec.sing |-> Mag(One -- (rec.sing[i] // x))]
               IN IF Len(d) = 1 THEN MinN(One, d[1]) ELSE MinN(One, MinN(d[1], d[2]))
RECURSIVE Radial(_, _, _)
Radial(rec, s, r) == LET nx == Mag(s.x) ** N("4/3") IN
    IF Le(r, nx) THEN Hop(rec, s, NegN(r)) ELSE Radial(rec, Hop(rec, s, NegN(nx)), r)
RECURSIVE Arc(_, _, _, _, _, _)
Arc(rec, s, r, phi, goal, x1) == \* phi decreases to goal in absolute value
    LET st == Rel(rec, s.x) // 3  rest == goal -- phi IN
    IF Le(Mag(rest), st) THEN Hop(rec, s, x1)
    ELSE LET np == IF Lt(rest, 0) THEN phi -- st ELSE phi ++ st
         IN Arc(rec, Hop(rec, s, r ** ExpN(IU ** np)), r, np, goal, x1)
Small(rec) == LET R == IF Len(rec.sing) = 1 THEN Mag(rec.sing[1]) ELSE MinN(Mag(rec.sing[1]), Mag(rec.sing[2])) IN R // 4
FromSeries(rec, x) ==
    LET a == Series(rec, rec.n) IN
    [x |-> x, f |-> [i \in 1..rec.ord |-> Horner([k \in DOMAIN a |-> a[k] ** N(CASE i = 1 -> 1 [] i = 2 -> k - 1 [] i = 3 -> ((k - 1) * (k - 2)) \div 2)], x)]]
\* scaled derivatives of F at x; a point on the cut is approached from below if low
FAt(rec, x, low) ==
    LET r == Mag(x)  r0 == Small(rec) IN
    IF Le(r, r0) THEN FromSeries(rec, x)
    ELSE LET s == Radial(rec, FromSeries(rec, NegN(r0)), r)
             im == Im(x)
             phi == Im(LogN(x))
             neg == Lt(im, 0) \/ (Same(im, 0) /\ low)
         IN Arc(rec, s, r, IF neg THEN NegN(PiN) ELSE PiN, IF Same(im, 0) /\ Lt(x, 0) /\ neg THEN NegN(PiN) ELSE phi, x)

\* Green's function and derivative for hopping one; z with Im z >= 0, real z means z + i0
FromEven(rec, w, scale) == \* G(w) = F(1/w^2)/w ;  w real or in the upper or lower half-plane: up tells the side
    LET x == One // Sq(w)  s == FAt(rec, x, ~Lt(w, 0))
    IN [g |-> s.f[1] // w, d |-> NegN((s.f[1] ++ (2 ** s.f[2])) // Sq(w))]
FromShift(rec, w) ==       \* G = x F(x), x = 1/w
    LET x == One // w  s == FAt(rec, x, TRUE)
    IN [g |-> x ** s.f[1], d |-> NegN(Sq(x) ** (s.f[1] ++ s.f[2]))]
Sided(rec, w) == IF Same(Im(w), 0) THEN FromEven(rec, Re(w), 1)
                 ELSE LET x == One // Sq(w)  s == FAt(rec, x, FALSE) IN [g |-> s.f[1] // w, d |-> NegN((s.f[1] ++ (2 ** s.f[2])) // Sq(w))]
Sqrt2(w, b) == SqrtN(w -- b) ** SqrtN(w ++ b)
HopGf(lat, w, g) ==
    CASE lat = "square" -> Sided(Rec("square", g), w)
      [] lat = "honeycomb" -> Sided(Rec("honeycomb", g), w)
      [] lat = "sc" -> Sided(Rec("sc", g), w)
      [] lat = "bcc" -> Sided(Rec("bcc", g), w)
      [] lat = "rectangular" -> Sided(Rec("rectangular", g), w)
      [] lat = "triangular" -> FromShift(Rec("honeycomb", g), w ++ 3)
      [] lat = "fcc" -> FromShift(Rec("diamond", g), w ++ 4)
      [] lat = "kagome" -> LET s == Sided(Rec("honeycomb", g), w -- 1) IN
            [g |-> (One // (3 ** (w ++ 2))) ++ ((2 ** s.g) // 3), d |-> ((2 ** s.d) // 3) -- (One // (3 ** Sq(w ++ 2)))]
      [] lat = "lieb" -> \* z G_square(z^2 - 4), the side of z^2 - 4 is that of z times the sign of Re z
            LET v == Sq(w) -- 4
                s == IF Same(Im(w), 0) /\ Lt(w, 0) THEN LET u == Sided(Rec("square", g), v) IN [g |-> Conj(u.g), d |-> Conj(u.d)]
                     ELSE Sided(Rec("square", g), v)
            IN [g |-> (One // (3 ** w)) ++ ((2 ** w ** s.g) // 3), d |-> ((2 ** (s.g ++ (2 ** Sq(w) ** s.d))) // 3) -- (One // (3 ** Sq(w)))]
      [] lat = "onedim" -> LET q == Sqrt2(w, N(2)) IN [g |-> One // q, d |-> NegN(w) // PowN(q, 3)]
      [] lat = "bethe" -> LET q == Sqrt2(w, N(2)) IN [g |-> (w -- q) // 2, d |-> (One -- (w // q)) // 2]
\* half-bandwidth one
UnitGf(lat, z, g) ==
    IF lat = "box" THEN [g |-> (LogN(z ++ 1) -- LogN(z -- 1)) // 2, d |-> ((One // (z ++ 1)) -- (One // (z -- 1))) // 2]
    ELSE LET t == IF lat = "rectangular" THEN 2 ** (One ++ SqrtN(g.g)) ELSE HalfWidth(lat)
             s == HopGf(lat, t ** z, g)
         IN [g |-> t ** s.g, d |-> Sq(t) ** s.d]
\* half-bandwidth D, any z off the real axis or z + i0 on it; scale: ratio of the hoppings of the rectangular lattice
LatGreenN(lat, z, D, scale, terms) ==
    LET low == Lt(Im(z), 0)
        s == UnitGf(lat, (IF low THEN Conj(z) ELSE z) // D, [g |-> Sq(scale), n |-> terms])
    IN [g |-> (IF low THEN Conj(s.g) ELSE s.g) // D, d |-> (IF low THEN Conj(s.d) ELSE s.d) // Sq(D)]
\* relative accuracy of 20 digits
LatGreen(lat, z, D, scale) == LatGreenN(lat, z, D, scale, 44)
=============================================================================
