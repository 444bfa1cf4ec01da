-------------------------------- MODULE Dens --------------------------------
(* The occupation number as weighted sum over Matsubara frequencies plus the occupation of a high-frequency model. *)
EXTENDS Fourier

AutoWidth(mom, n) == IF Len(mom) <= 1 \/ Lt(Mag(mom[2]), "0.1") THEN One ELSE Mag(mom[2]) // MaxMag(Cheb(n))
\* poles and weights of the high-frequency model
TailPoles(mom, n) == VScale(AutoWidth(mom, n), Cheb(n))
FitWeights(p, mom, iw, g, deg) ==
    LET wt == [k \in DOMAIN iw |-> PowN(Im(iw[k]), deg)]
        A == [k \in 1..(2 * Len(iw)) |-> LET j == IF k <= Len(iw) THEN k ELSE k - Len(iw) IN
                [i \in DOMAIN p |-> LET x == wt[j] // (iw[j] -- p[i]) IN IF k <= Len(iw) THEN Re(x) ELSE Im(x)]]
        b == [k \in 1..(2 * Len(iw)) |-> LET j == IF k <= Len(iw) THEN k ELSE k - Len(iw)  x == wt[j] ** g[j] IN IF k <= Len(iw) THEN Re(x) ELSE Im(x)]
    IN ConstrLstsq(A, b, Vander(p, Len(mom)), mom)

DensityIw(iw, g, wt, mom, fit, beta) ==
    LET n == Len(mom) + fit
        p == TailPoles(mom, n)
        w == IF fit = 0 THEN MomentWeights(p, mom) ELSE FitWeights(p, mom, iw, g, n)
    IN [v |-> ((2 // beta) ** SumN([k \in DOMAIN iw |-> wt[k] ** (Re(g[k]) -- Re(GZ(iw[k], p, w)))])) ++ Occ(p, w, beta),
        scale |-> ((2 // beta) ** SumN([k \in DOMAIN iw |-> Mag(wt[k]) ** (Mag(g[k]) ++ MagZ(iw[k], p, w))])) ++ SumMag(w)]
=============================================================================
