------------------------------- MODULE Thiele -------------------------------
(***************************************************************************)
(* Thiele's continued fraction through points (z[i], f[i]):                *)
(*   C_n(x) = a1/(1 + a2 (x-z1)/(1 + a3 (x-z2)/( ... a_n (x-z_(n-1)))))    *)
(* C_n interpolates the first n points and behaves like 1/x for even and   *)
(* like a constant for odd n.                                              *)
(***************************************************************************)
EXTENDS Kit, SequencesExt

RECURSIVE ThieleAcc(_, _, _, _)
ThieleAcc(z, g, i, acc) ==  \* g: the current reciprocal differences of points i..
    IF i > Len(z) THEN acc
    ELSE ThieleAcc(z, Strict([j \in 1..Len(z) |-> IF j <= i THEN Zero ELSE ((g[i] // g[j]) -- 1) // (z[j] -- z[i])]), i + 1, Append(acc, g[i]))
ThieleCoeffs(z, f) == ThieleAcc(z, f, 1, <<>>)
\* value of C_n by evaluating the fraction from its end
RECURSIVE Frac(_, _, _, _, _)
Frac(a, z, x, k, acc) == IF k = 1 THEN a[1] // acc ELSE Frac(a, z, x, k - 1, One ++ ((a[k] ** (x -- z[k - 1])) // acc))
Convergent(a, z, x, n) == Frac(a, z, x, n, One)
\* numbers of coefficients a kind visits
KindNumbers(kind, nmin, nmax, avail) == {n \in 1..MinI(nmax, avail) : n > nmin /\ n >= 2 /\ n % 2 = (IF kind = "gf" THEN 0 ELSE 1)}
KindRejects(kind, nmin, nmax) ==
    LET m == IF kind = "gf" THEN (IF nmin % 2 = 0 THEN nmin + 1 ELSE nmin) ELSE (IF nmin % 2 = 1 THEN nmin + 1 ELSE nmin)
    IN m < 1 \/ nmax <= m
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* filters: P is a sequence of approximants (each a sequence of values); result: the set of kept indices out of I *)
Badness(P, i) == LET v == P[i] IN CHOOSE m \in {Im(v[k]) : k \in DOMAIN v} : \A k \in DOMAIN v : Le(Im(v[k]), m)
KeepNegImag(P, I, thr) == {i \in I : \A k \in DOMAIN P[i] : thr = "inf" \/ Lt(Im(P[i][k]), N(thr))}
Smallest(S, V, m) == {i \in S : Cardinality({j \in S : Lt(V[j], V[i])}) < m}
KeepNum(P, I, num) ==
    IF num >= Cardinality(I) THEN I
    ELSE LET V == Strict([i \in DOMAIN P |-> IF i \in I THEN Badness(P, i) ELSE Zero])
         IN Smallest(I, V, num) \cup {i \in I : Le(V[i], 0)}
MeanOf(P, I) == LET q == SortedSeq(I) IN Strict([k \in DOMAIN P[1] |-> SumN([i \in DOMAIN q |-> P[q[i]][k]]) // Cardinality(I)])
DistTo(P, I, m) == Strict([i \in DOMAIN P |-> IF i \in I THEN VNorm2(VSub(P[i], m)) ELSE Zero])
RECURSIVE DropWorst(_, _, _)
DropWorst(P, I, num) == \* iteratively drop the one farthest from the mean of the remaining
    IF Cardinality(I) <= num THEN I
    ELSE LET d == DistTo(P, I, MeanOf(P, I))  w == CHOOSE i \in I : \A j \in I : Le(d[j], d[i])
         IN DropWorst(P, I \ {w}, num)
\* the alternative reading: order all by the distance to the mean of the last num+1 remaining
KeepVariance(P, I, num) == DropWorst(P, I, num)
RECURSIVE DropTie(_, _, _)
DropTie(P, I, num) == \* two remaining approximants are equally far: rounding decides
    IF Cardinality(I) <= num THEN FALSE
    ELSE LET d == DistTo(P, I, MeanOf(P, I))  w == CHOOSE i \in I : \A j \in I : Le(d[j], d[i])
         IN (\E j \in I \ {w} : Close(d[j], d[w], "1e-6", 0)) \/ DropTie(P, I \ {w}, num)
VarianceAmbiguous(P, I, num) ==
    IF Cardinality(I) <= num THEN FALSE
    ELSE IF DropTie(P, I, num) THEN TRUE
    ELSE LET R == DropWorst(P, I, num + 1)  d == DistTo(P, I, MeanOf(P, R)) IN Smallest(I, d, num) # DropWorst(P, I, num)
=============================================================================
