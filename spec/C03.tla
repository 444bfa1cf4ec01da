-------------------------------- MODULE C03 ---------------------------------
(***************************************************************************)
(* Matsubara and Pade frequencies are the poles of the Fermi (Bose)        *)
(* function and of its [2num-1/2num] Pade approximant at eps = 0.          *)
(***************************************************************************)
EXTENDS Kit, Run

C03Scenarios == [op : {"matsubara_frequencies", "matsubara_frequencies_b"},
                 shape : {"scalar", "range", "array", "mat", "negative", "empty", "large", "int8", "uint8", "int16", "uint16", "int32", "uint32"}, beta : {"float", "int", "large", "small"}]
           \cup [op : {"pade_frequencies"}, num : 1..24 \cup {30, 40, 50, 64, 80, 100, 160, 200}, beta : {"float", "int"}]
           \cup [op : {"pade_frequencies"}, num : {1, 2, 5, 12, 30}, beta : {"large", "small"}]

\* tanh(u) = u/(1 + u^2/(3 + u^2/(5 + ...))).  Denominator of the truncation after n quotients at u = i y/2.
RECURSIVE DenRec(_, _, _, _, _)
DenRec(y, n, k, b1, b0) == IF k > n THEN b1
                           ELSE DenRec(y, n, k + 1, ((2 * k - 1) ** b1) -- (Sq(y // 2) ** b0), b1)
Den(y, n) == DenRec(y, n, 2, One, One)      \* B_0 = 1, B_1 = 1

\* Taylor coefficients of tanh: T' = 1 - T^2;  T[k] multiplies u^(2k-1)
RECURSIVE TanhRec(_, _)
TanhRec(k, T) ==
    IF k > Len(T) THEN T
    ELSE LET c == SumN([i \in 1..(k - 1) |-> T[i] ** T[k - i]])
         IN  TanhRec(k + 1, [T EXCEPT ![k] = IF k = 1 THEN One ELSE NegN(c // (2 * k - 1))])
Tanh(n) == TanhRec(1, [k \in 1..n |-> Zero])
\* S_k = sum over all positive Matsubara frequencies (beta = 1) of 1/w^(2k+2),
\* from tanh(x/2)/2 = sum_n 2x/(x^2 + w_n^2):  coefficient of x^(2k+1) is 2 (-1)^k S_k
SumInv(k, T) == Mag(T[k + 1] // PowN(N(2), 2 * k + 3))

C03SelfCheck(sc) ==
    IF sc.op # "pade_frequencies" THEN {}
    ELSE LET T == Tanh(12) IN Fails({
       <<"S0", Close(SumInv(0, T), N("1/8"), "1e-60", 0)>>,                     \* sum 1/((2n+1) pi)^2 = 1/8
       <<"S1", Close(SumInv(1, T), N("1/96"), "1e-60", 0)>>,
       <<"odd-positive", \A k \in 0..11 : Lt(0, SumInv(k, T))>>,
       <<"den", Close(Den(N(0), sc.num), ProdN([i \in 1..(sc.num - 1) |-> N(2 * i + 1)]), "1e-60", 0)>> })

\* An arbitrary negative zero/positive index n in a matsubara row.
Freq(op, r) ==
    LET w == IF op = "matsubara_frequencies" THEN (IU ** PiN ** ((2 ** N(r.n)) ++ 1)) // N(r.beta)
             ELSE (2 ** IU ** PiN ** N(r.n)) // N(r.beta)
    IN Fails({<<"frequency", Close(r.o, w, "1e-14", 0)>>, <<"imaginary", Same(Re(r.o), 0)>>})

Pade(r) ==
    LET num == Len(r.o)
        beta == N(r.beta)
        y == [i \in 1..num |-> Im(r.o[i]) ** beta]
        w == Vec(r.resid)
        kmax == MinI(2 * num, 40)
        T == Tanh(kmax)
        d == N("1e-8")
        lo(i) == Den(y[i] ** (One -- d), 2 * num)
        hi(i) == Den(y[i] ** (One ++ d), 2 * num)
    IN Fails({
         <<"count", num = r.num /\ Len(w) = num>>,
         <<"imaginary-axis", \A i \in 1..num : Same(Re(r.o[i]), 0) /\ Lt(0, y[i])>>,
         <<"ascending", \A i \in 1..(num - 1) : Lt(y[i], y[i + 1])>>,
         <<"positive-residues", \A i \in 1..num : Same(Im(w[i]), 0) /\ Lt("0.999", w[i])>>,
         <<"poles-of-approximant", \A i \in 1..num : Lt(lo(i) ** hi(i), 0)>>,
         <<"order-condition", \A k \in 0..(kmax - 1) :
              Close(SumN([i \in 1..num |-> w[i] // PowN(y[i], 2 * k + 2)]), SumInv(k, T), "1e-9", 0)>> })

C03Abs0(session) == <<>>
C03Step(st, ev) == [st |-> st, bad |-> LET F(r) == IF ev.op = "pade_frequencies" THEN Pade(r) ELSE Freq(ev.op, r) IN JudgeRows(ev, F)]
=============================================================================
