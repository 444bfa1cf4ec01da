------------------------------ MODULE Fourier -------------------------------
(***************************************************************************)
(* What the imaginary-time / Matsubara transforms return, for samples on   *)
(* the meshes tau_j = j beta/n (j = 0..n) and iw_m = i pi (2m+1)/beta.     *)
(***************************************************************************)
EXTENDS PoleModel

\* e(k, n): exp(2 pi i k/n) from the table R of n-th roots of unity
Phase(R, k) == R[(k % Len(R)) + 1]

\* truncated Fourier sum at tau_j = j beta/(2N), j = 0..2N
IwDft(g, beta) ==
    LET NN == Len(g)  R == RootsOfUnity(4 * NN)
    IN [j \in 1..(2 * NN + 1) |->
          (2 // beta) ** Re(SumN([m \in 1..NN |-> g[m] ** Conj(Phase(R, (2 * m - 1) * (j - 1)))]))]
\* the same with N further frequencies which decay like a cosine
SoftTail(g) == LET NN == Len(g) IN
    [k \in 1..(2 * NN) |-> IF k <= NN THEN g[k] ELSE g[NN] ** ((CosN((PiN ** (k - NN)) // NN) ++ 1) // 2)]
IwDftSoft(g, beta) == LET t == IwDft(SoftTail(g), beta) IN [j \in 1..(2 * Len(g) + 1) |-> t[2 * j - 1]]

\* Riemann sums over tau
TauRiemannF(g, beta) == \* fermionic
    LET n == Len(g) - 1  R == RootsOfUnity(2 * n)
    IN [m \in 1..((n + 1) \div 2) |-> (beta // n) ** SumN([j \in 1..n |-> g[j] ** Phase(R, (2 * m - 1) * (j - 1))])]
TauRiemannB(g, beta) == \* bosonic
    LET n == Len(g) - 1  R == RootsOfUnity(n)
    IN [m \in 1..((n \div 2) + 1) |->
         IF m = 1 THEN (beta // n) ** (SumN([j \in 1..n |-> g[j] ++ g[j + 1]]) // 2)
         ELSE (beta // n) ** SumN([j \in 1..n |-> g[j] ** Phase(R, (m - 1) * (j - 1))])]

\* exact integral over one interval of length h of the linear function from a to b times exp(x t), t from 0
LinInt(a, b, x, h) ==
    IF Same(x, 0) THEN h ** ((a ++ b) // 2)
    ELSE LET e == ExpN(x ** h) IN
         \* int (a + (b-a) t/h) e^{xt} = [ (b e - a)/x ] - (b-a)/(h x^2) (e - 1)
         (((b ** e) -- a) // x) -- (((b -- a) ** (e -- 1)) // (h ** Sq(x)))
\* exact Fourier integral of the linear interpolant of samples g at t0 + j h
LinFourier(g, x, t0, h) ==
    IF Same(x, 0) THEN SumN([j \in 1..(Len(g) - 1) |-> LinInt(g[j], g[j + 1], Zero, h)])
    ELSE LET e == ExpN(x ** h)
             c1 == One // x   c2 == (e -- 1) // (h ** Sq(x))
             step(a, b) == (((b ** e) -- a) ** c1) -- ((b -- a) ** c2)
             RECURSIVE acc(_, _, _)
             acc(j, ph, s) == IF j >= Len(g) THEN s ELSE acc(j + 1, ph ** e, s ++ (ph ** step(g[j], g[j + 1])))
         IN  acc(1, ExpN(x ** t0), Zero)
IwN(m, beta) == (IU ** PiN ** (2 * m + 1)) // beta
IvN(m, beta) == (IU ** PiN ** (2 * m)) // beta
TauLinB(g, beta) == LET n == Len(g) - 1 IN
    [m \in 1..((n \div 2) + 1) |-> LinFourier(g, IvN(m - 1, beta), Zero, beta // n)]
\* anti-periodic continuation of the samples to [-beta, beta], half the integral over the period
TauLinF(g, beta) ==
    LET n == Len(g) - 1
        ext == [j \in 1..(2 * n + 1) |-> IF j <= n THEN NegN(g[j]) ELSE g[j - n]]
    IN [m \in 1..((n + 1) \div 2) |-> LinFourier(ext, IwN(m - 1, beta), NegN(beta), beta // n) // 2]

\* pole model on the Chebyshev mesh that has the given moments
Cheb(n) == [i \in 1..n |-> SinN((PiN ** (2 * i - n - 1)) // (2 * n))]
Vander(p, m) == [k \in 1..m |-> [i \in DOMAIN p |-> PowN(p[i], k - 1)]]
MomentWeights(p, mom) == SolveN(Vander(p, Len(p)), mom)
TauMesh(n, beta) == [j \in 1..(n + 1) |-> (beta ** (j - 1)) // n]
PoleTau(n, p, w, beta) == LET t == TauMesh(n, beta) IN [j \in 1..(n + 1) |-> GTau(t[j], p, w, beta)]
PoleIw(n, p, w, beta) == [m \in 1..n |-> GZ(IwN(m - 1, beta), p, w)]
=============================================================================
