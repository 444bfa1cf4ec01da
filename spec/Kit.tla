-------------------------------- MODULE Kit ---------------------------------
(***************************************************************************)
(* Shared vocabulary of the property modules: vectors and matrices of MP   *)
(* numbers, polynomials, and the reading of recorded events.               *)
(*                                                                         *)
(* A recorded event is one call of the public API:                         *)
(*   op    name of the called function (and variant)                       *)
(*   exc   "" or the name of the exception the call raised                 *)
(*   sh    TRUE iff the result had the shape the scenario demands          *)
(*   rows  one record per batch element: the exact inputs of that element  *)
(*         and the exact output the call produced for it                   *)
(***************************************************************************)
EXTENDS MP, FiniteSets, TLC

\* names of the clauses <<name, holds>> that do not hold
Fails(clauses) == {c[1] : c \in {d \in clauses : ~d[2]}}
FailsSeq(clauses) == {clauses[i][1] : i \in {j \in DOMAIN clauses : ~clauses[j][2]}}

JudgeRows(ev, RowBad(_)) ==
    IF ev.exc # "" THEN {"raised-" \o ev.exc}
    ELSE IF ~ev.sh THEN {"shape"}
    ELSE UNION {RowBad(ev.rows[i]) : i \in DOMAIN ev.rows}

RaisesOneOf(ev, errors) == IF ev.exc \in errors THEN {} ELSE {"not-rejected-" \o ev.exc}

Has(r, f) == f \in DOMAIN r
MaxN(a, b) == IF Lt(a, b) THEN b ELSE a
MinN(a, b) == IF Lt(b, a) THEN b ELSE a
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF b < a THEN b ELSE a
AbsI(a) == IF a < 0 THEN -a ELSE a
Tiny == N("1e-300")
Zero == N(0)
One == N(1)
Half == N("1/2")
Sq(a) == a ** a
\* closeness with only a relative or only an absolute tolerance
RClose(a, b, r) == Close(a, b, r, 0)
AClose(a, b, t) == Close(a, b, 0, t)

Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
\* sequences of numbers
VecClose(u, v, r, t) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Close(u[i], v[i], r, t)
VAdd(u, v) == Strict([i \in DOMAIN u |-> u[i] ++ v[i]])
VSub(u, v) == Strict([i \in DOMAIN u |-> u[i] -- v[i]])
VScale(a, v) == Strict([i \in DOMAIN v |-> a ** v[i]])
VConj(v) == Strict([i \in DOMAIN v |-> Conj(v[i])])
VNorm2(v) == SumN([i \in DOMAIN v |-> Re(v[i] ** Conj(v[i]))])
AllFin(v) == \A i \in DOMAIN v : IsFin(v[i])
\* matrices: sequences of rows
NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Mat(A) == Strict([i \in DOMAIN A |-> Vec(A[i])])
Transp(A) == Strict([j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> A[i][j]]])
Adj(A) == Strict([j \in 1..NCols(A) |-> [i \in 1..NRows(A) |-> Conj(A[i][j])]])
MatVec(A, x) == Strict([i \in DOMAIN A |-> Dot(A[i], x)])
MatMul(A, B) == MatMulN(A, B)
MSub(A, B) == Strict([i \in DOMAIN A |-> VSub(A[i], B[i])])
MAdd(A, B) == Strict([i \in DOMAIN A |-> VAdd(A[i], B[i])])
Ident(n) == Strict([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
DiagM(d) == Strict([i \in DOMAIN d |-> [j \in DOMAIN d |-> IF i = j THEN d[i] ELSE Zero]])
Diag(A) == Strict([i \in DOMAIN A |-> A[i][i]])
MScale(a, A) == Strict([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> a ** A[i][j]]])
Inv(A) == InvN(A)
MaxMagM(A) == MaxMag([i \in DOMAIN A |-> MaxMag(A[i])])
MatClose(A, B, r, t) == LET s == t ++ (r ** MaxN(MaxMagM(A), MaxMagM(B)))
                        IN  Len(A) = Len(B) /\ \A i \in DOMAIN A : Len(A[i]) = Len(B[i]) /\ \A j \in DOMAIN A[i] : AClose(A[i][j], B[i][j], s)
\* polynomials: coefficient sequences, lowest order first
PolyAt(c, k) == IF k + 1 \in DOMAIN c THEN c[k + 1] ELSE Zero
PolyMul(p, q) == IF Len(p) = 0 \/ Len(q) = 0 THEN <<>> ELSE
    Strict([k \in 1..(Len(p) + Len(q) - 1) |->
        SumN([i \in 1..(MinI(k, Len(p)) - MaxI(1, k + 1 - Len(q)) + 1) |->
              LET a == i + MaxI(1, k + 1 - Len(q)) - 1 IN p[a] ** q[k + 1 - a]])])
RECURSIVE PolyFromRootsAcc(_, _, _)
PolyFromRootsAcc(r, i, acc) == IF i > Len(r) THEN acc ELSE PolyFromRootsAcc(r, i + 1, PolyMul(acc, <<NegN(r[i]), One>>))
PolyFromRoots(r) == PolyFromRootsAcc(r, 1, <<One>>)
\* product of a sequence
RECURSIVE ProdAcc(_, _, _)
ProdAcc(s, i, acc) == IF i > Len(s) THEN acc ELSE ProdAcc(s, i + 1, acc ** s[i])
ProdN(s) == ProdAcc(s, 1, One)
SinN(x) == ((ExpN(IU ** x)) -- (ExpN(NegN(IU ** x)))) // (2 ** IU)
CosN(x) == ((ExpN(IU ** x)) ++ (ExpN(NegN(IU ** x)))) // 2
\* minimiser of |A x - b| subject to C x = d (full column rank of A on the constraint null space)
ConstrLstsq(A, b, C, d) ==
    LET n == NCols(A)  l == Len(C)
        AH == Adj(A)  M == MatMul(AH, A)  r == MatVec(AH, b)  CH == IF l = 0 THEN [i \in 1..n |-> <<>>] ELSE Adj(C)
        K == [i \in 1..(n + l) |-> IF i <= n THEN M[i] \o CH[i] ELSE C[i - n] \o [j \in 1..l |-> Zero]]
    IN SubSeq(SolveN(K, r \o d), 1, n)
=============================================================================
