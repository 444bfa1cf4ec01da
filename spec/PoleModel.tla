----------------------------- MODULE PoleModel ------------------------------
(***************************************************************************)
(* The central abstract object of the library: a Green's function given by *)
(* poles p[i] and weights w[i].  Every representation the library works    *)
(* with (complex frequency, imaginary time, real time, moments,            *)
(* occupation) is a projection of this object.                             *)
(***************************************************************************)
EXTENDS Kit

GZ(z, p, w) == PoleSum(z, p, w)
GD1(z, p, w) == NegN(SumN([i \in DOMAIN p |-> w[i] // Sq(z -- p[i])]))
Moment(p, w, m) == SumN([i \in DOMAIN p |-> w[i] ** PowN(p[i], m - 1)])   \* order m >= 1
Fermi(x) == One // (ExpN(x) ++ 1)
Bose(x) == One // (ExpN(x) -- 1)
\* -<T c(tau) c^+> of one pole on 0 <= tau <= beta, the exponent kept negative
TauTerm(p, tau, beta) ==
    IF Le(0, p) THEN NegN(ExpN(NegN(tau ** p)) ** Fermi(NegN(beta ** p)))
    ELSE NegN(ExpN((beta -- tau) ** p) ** Fermi(beta ** p))
TauTermB(p, tau, beta) == NegN(ExpN(NegN(tau ** p)) // (One -- ExpN(NegN(beta ** p))))
RetTerm(p, t) == IF Lt(t, 0) THEN Zero ELSE NegN(IU) ** ExpN(NegN(IU) ** p ** t)
GTau(tau, p, w, beta) == SumN([i \in DOMAIN p |-> w[i] ** TauTerm(p[i], tau, beta)])
GTauB(tau, p, w, beta) == SumN([i \in DOMAIN p |-> w[i] ** TauTermB(p[i], tau, beta)])
GRet(t, p, w) == SumN([i \in DOMAIN p |-> w[i] ** RetTerm(p[i], t)])
Occ(p, w, beta) == SumN([i \in DOMAIN p |-> w[i] ** Fermi(beta ** p[i])])

\* magnitude of the summands: the scale of admissible rounding
MagZ(z, p, w) == SumN([i \in DOMAIN p |-> Mag(w[i] // (z -- p[i]))])
MagD1(z, p, w) == SumN([i \in DOMAIN p |-> Mag(w[i] // Sq(z -- p[i]))])
MagMoment(p, w, m) == SumN([i \in DOMAIN p |-> Mag(w[i] ** PowN(p[i], m - 1))])
MagTau(tau, p, w, beta) == SumN([i \in DOMAIN p |-> Mag(w[i] ** TauTerm(p[i], tau, beta))])
MagTauB(tau, p, w, beta) == SumN([i \in DOMAIN p |-> Mag(w[i] ** TauTermB(p[i], tau, beta))])
MagRet(t, p, w) == SumN([i \in DOMAIN p |-> Mag(w[i] ** RetTerm(p[i], t))])
SumMag(w) == SumN([i \in DOMAIN w |-> Mag(w[i])])
=============================================================================
