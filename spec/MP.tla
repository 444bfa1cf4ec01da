--------------------------------- MODULE MP ---------------------------------
(***************************************************************************)
(* Complex arithmetic for the specifications of gftool.                    *)
(*                                                                         *)
(* A number is a pair <<re, im>> of TLA+ Reals; a TLA+ integer n stands    *)
(* for <<n, 0>> and a string for the number it denotes ("0x1.8p+3",        *)
(* "1/3", "1e-9", "re,im"), which is how a recorded execution writes the   *)
(* exact value of a floating point number.  TLC evaluates these operators  *)
(* with java/MP.java: 320-bit complex floating point numbers, relative     *)
(* rounding below 2^-315.  Recorded values may be nan or inf: arithmetic   *)
(* on nan gives nan, and every comparison with nan is FALSE.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Reals

LOCAL rr(a) == a[1]
LOCAL ii(a) == a[2]

\* The number denoted by an integer, string or number.
N(a) == CHOOSE z \in Real \X Real : z = a
Cplx(a, b) == <<rr(N(a)), rr(N(b))>>
Re(a) == <<rr(N(a)), 0>>
Im(a) == <<ii(N(a)), 0>>
Conj(a) == <<rr(N(a)), -ii(N(a))>>
NegN(a) == <<-rr(N(a)), -ii(N(a))>>
Add(a, b) == <<rr(N(a)) + rr(N(b)), ii(N(a)) + ii(N(b))>>
Sub(a, b) == <<rr(N(a)) - rr(N(b)), ii(N(a)) - ii(N(b))>>
Mul(a, b) == <<rr(N(a)) * rr(N(b)) - ii(N(a)) * ii(N(b)),
               rr(N(a)) * ii(N(b)) + ii(N(a)) * rr(N(b))>>
\* nan if b = 0
Div(a, b) == CHOOSE c \in Real \X Real : Mul(c, b) = N(a)
Same(a, b) == N(a) = N(b)
Lt(a, b) == rr(N(a)) < rr(N(b))        \* compares real parts
Le(a, b) == rr(N(a)) <= rr(N(b))
Mag(a) == CHOOSE r \in Real \X {0} :
             rr(r) >= 0 /\ Mul(r, r) = Mul(a, Conj(a))
\* principal square root
SqrtN(a) == CHOOSE s \in Real \X Real :
             Mul(s, s) = N(a) /\ (rr(s) > 0 \/ (rr(s) = 0 /\ ii(s) >= 0))
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN <<1, 0>>
              ELSE IF n > 0 THEN Mul(a, PowN(a, n - 1)) ELSE Div(PowN(a, n + 1), a)
RECURSIVE Factorial(_), ExpPartial(_, _)
Factorial(k) == IF k = 0 THEN <<1, 0>> ELSE Mul(k, Factorial(k - 1))
ExpPartial(a, k) == \* partial sums of the exponential series
    IF k = 0 THEN <<1, 0>> ELSE Add(ExpPartial(a, k - 1), Div(PowN(a, k), Factorial(k)))
ExpN(a) == \* the limit of the exponential series
    CHOOSE e \in Real \X Real :
      \A d \in Real : d > 0 => \E k0 \in Nat : \A k \in Nat :
         k > k0 => Lt(Mag(Sub(e, ExpPartial(a, k))), <<d, 0>>)
LogN(a) == CHOOSE l \in Real \X Real : ExpN(l) = N(a) \* principal branch, Im in (-pi, pi]
PiN == \* the smallest positive p with exp(i p) = -1
    CHOOSE p \in Real \X {0} :
      /\ Lt(0, p) /\ Same(ExpN(Mul(<<0, 1>>, p)), <<-1, 0>>)
      /\ \A q \in Real \X {0} : Lt(0, q) /\ Lt(q, p) => ~Same(ExpN(Mul(<<0, 1>>, q)), <<-1, 0>>)
IsFin(a) == N(a) \in Real \X Real      \* neither nan nor inf
IsNaN(a) == FALSE                      \* a recorded nan
FloorN(a) == CHOOSE n \in Int : n <= rr(N(a)) /\ rr(N(a)) < n + 1
Show(a) == "decimal approximation of a"
Exact(a) == "a string denoting a exactly"
Close(a, b, rtol, atol) ==
    LET m == IF Lt(Mag(a), Mag(b)) THEN Mag(b) ELSE Mag(a)
    IN  Le(Mag(Sub(a, b)), Add(atol, Mul(rtol, m)))

\* sequences of numbers
Vec(s) == [i \in DOMAIN s |-> N(s[i])]
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN <<0, 0>> ELSE Add(Head(s), SumN(Tail(s)))
Dot(s, t) == SumN([i \in DOMAIN s |-> Mul(s[i], t[i])])
Horner(c, x) == SumN([i \in DOMAIN c |-> Mul(c[i], PowN(x, i - 1))])
PoleSum(z, p, w) == SumN([i \in DOMAIN p |-> Div(w[i], Sub(z, p[i]))])
MaxMag(s) == CHOOSE r \in {Mag(s[i]) : i \in DOMAIN s} :
               \A i \in DOMAIN s : Le(Mag(s[i]), r)

\* the solution of a square linear system (nan if singular)
SolveN(A, b) == CHOOSE x \in [DOMAIN b -> Real \X Real] : \A i \in DOMAIN A : Dot(A[i], x) = N(b[i])
\* the inverse of a square matrix (nan if singular)
InvN(A) == [i \in DOMAIN A |-> [j \in DOMAIN A |-> SolveN(A, [k \in DOMAIN A |-> IF k = j THEN <<1, 0>> ELSE <<0, 0>>])[i]]]
\* identity; the override evaluates a nested sequence completely
Strict(s) == s
RootsOfUnity(n) == [k \in 1..n |-> ExpN(Div(Mul(<<0, 2 * (k - 1)>>, PiN), n))]
MatMulN(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> Dot(A[i], [k \in DOMAIN B |-> B[k][j]])]]

\* Taylor coefficients f_0..f_(n-1) of the solution of sum_i q_i(u) f^(i)(u) = 0 with given f_0..f_(order-1);
\* q[i+1] is the coefficient sequence of the polynomial q_i
RECURSIVE FallingFactorial(_, _)
FallingFactorial(k, i) == IF i = 0 THEN 1 ELSE k * FallingFactorial(k - 1, i - 1)
RECURSIVE OdeTaylor(_, _, _)
OdeTaylor(q, f, n) ==
    IF Len(f) >= n THEN f ELSE
    LET ord == Len(q) - 1  top == Len(f)
        Term(i, m) == LET k == top - ord - m + i IN
            IF k < 0 \/ k >= top THEN <<0, 0>> ELSE Mul(Mul(q[i + 1][m + 1], FallingFactorial(k, i)), f[k + 1])
        S == SumN([i \in 1..(ord + 1) |-> SumN([m \in DOMAIN q[i] |-> Term(i - 1, m - 1)])])
    IN OdeTaylor(q, Append(f, NegN(Div(S, Mul(q[ord + 1][1], FallingFactorial(top, ord))))), n)
\* the first m derivatives (over i!) at h of the polynomial with coefficients f
RECURSIVE BinomialInt(_, _)
BinomialInt(n, k) == IF k = 0 THEN 1 ELSE (BinomialInt(n - 1, k - 1) * n) \div k
TaylorShift(f, h, m) == [i \in 1..m |-> SumN([k \in 1..(Len(f) - i + 1) |-> Mul(Mul(BinomialInt(k + i - 2, i - 1), f[k + i - 1]), PowN(h, k - 1))])]

a ++ b == Add(a, b)
a -- b == Sub(a, b)
a ** b == Mul(a, b)
a // b == Div(a, b)
IU == Cplx(0, 1)
=============================================================================
