-------------------------------- MODULE C22 ---------------------------------
(***************************************************************************)
(* Least squares with equality constraints, and orthogonal complements.    *)
(***************************************************************************)
EXTENDS Kit, Run

C22Scenarios ==
       {s \in [op : {"orth_compl"}, n : 1..7, m : 1..6, dtype : {"real", "complex", "int"}, shape : {"none", "3", "2x2", "0"}, rank : {"full", "repeated", "zero"}] : s.m < s.n}
  \cup {s \in [op : {"orth_compl"}, n : {12, 16}, m : {1, 4, 11}, dtype : {"real", "complex", "int"}, shape : {"none", "3"}, rank : {"full", "repeated", "zero"}] : s.m < s.n}
  \cup {s \in [op : {"lstsq_ec"}, m : {11, 20}, n : {9, 12, 16}, l : {0, 1, 5, 9}, a : {"real", "complex"}, c : {"real", "complex"}, case : {"full", "deficient", "consistent", "mixed-c", "ill"}] :
          s.l <= s.n /\ (s.a = s.c)}
  \cup {s \in [op : {"orth-reject"}, n : 1..4, m : 1..6, shape : {"none", "2"}] : s.m >= s.n}
  \cup {s \in [op : {"lstsq_ec"}, m : 1..8, n : 1..5, l : 0..4, a : {"real", "complex"}, c : {"real", "complex"}, case : {"full", "deficient", "zero-row", "consistent", "rcond-arg", "ill", "tiny-c", "mixed-c", "tiny-a", "huge"}] :
          s.l <= s.n /\ (s.case = "zero-row" => s.l >= 1 /\ s.l < s.n) /\ (s.a = "complex" /\ s.c = "real" => s.case = "full")}
  \cup [op : {"truncate"}, l : 0..2, rcond : {"1e-3", "1e-9"}]
  \cup [op : {"inconsistent"}, n : 2..4, l : 1..2, dtype : {"real", "complex"}, by : {"1", "1e-3", "-1e-6", "1e6"}]
  \cup [op : {"no-unknowns"}, m : 1..3]
  \cup [op : {"mismatch"}, n : 1..3, l : 1..2]

\* projections: the part of g outside the row space of C (linearly independent rows)
OutsideRows(C, g) == IF Len(C) = 0 THEN g ELSE
    LET CH == Adj(C)  lam == SolveN(MatMul(C, CH), MatVec(C, g)) IN VSub(g, MatVec(CH, lam))
IndepRows(C) == SelectSeq(C, LAMBDA row : \E i \in DOMAIN row : ~Same(row[i], 0))
Gradient(A, b, x) == MatVec(Adj(A), VSub(MatVec(A, x), b))

SampleM(m, n, k) == Strict([i \in 1..m |-> [j \in 1..n |-> Cplx(N((i * i * 7 + j * j * j * 3 + k * i * j) % 17) // 6, N((i + 2 * j * k) % 5) // 3)]])
C22SelfCheck(sc) ==
    IF sc.op # "lstsq_ec" \/ sc.case # "full" \/ sc.a # "complex" \/ sc.c # "complex" \/ sc.m + sc.l < sc.n + 1 THEN {} ELSE
    \* the solution of the Karush-Kuhn-Tucker system fulfils the constraint and the stationarity used to judge recordings
    LET A == SampleM(sc.m + 2, sc.n, 1)  C == SampleM(sc.l, sc.n, 2)  b == SampleM(sc.m + 2, 1, 3)  d == SampleM(sc.l, 1, 5)
        bb == Strict([i \in DOMAIN b |-> b[i][1]])  dd == Strict([i \in DOMAIN d |-> d[i][1]])
        x == Strict(ConstrLstsq(A, bb, C, dd))
    IN IF \E i \in DOMAIN x : ~IsFin(x[i]) THEN {} ELSE
       Fails({<<"constraint", sc.l = 0 \/ \A i \in DOMAIN C : AClose(Dot(C[i], x), dd[i], N("1e-40") ** (One ++ MaxMag(x)))>>,
              <<"stationary", LET g == OutsideRows(C, Gradient(A, bb, x)) IN \A i \in DOMAIN g : AClose(g[i], 0, N("1e-40") ** (One ++ MaxMag(x)))>>})

RowOrth(ev, r) ==
    LET a == Mat(r.a)  p == Mat(r.o)  I == MatMul(p, Adj(p))  Z == MatMul(p, a)  s == One ++ MaxMagM(a)
    IN Fails({<<"dimension", Len(p) = ev.n - ev.m /\ \A i \in DOMAIN p : Len(p[i]) = ev.n>>,
              <<"orthonormal", MatClose(I, Ident(ev.n - ev.m), 0, "1e-12")>>,
              <<"annihilates", \A i \in DOMAIN Z : \A j \in DOMAIN Z[i] : AClose(Z[i][j], 0, N("1e-12") ** s)>>})
RowEc(ev, r) ==
    LET A == Mat(r.a)  b == Vec(r.b)  C == Mat(r.c)  d == Vec(r.d)  x == Vec(r.o)
        n == ev.n  Ci == IndepRows(C)
        sx == MaxMag(x)  sa == MaxMagM(A)
        g == IF Len(x) = n THEN OutsideRows(Ci, Gradient(A, b, x)) ELSE x
        tol == N("1e-10") ** N(ev.kappa)
    IN Fails({<<"unknowns", Len(x) = n>>,
              <<"constraint", Len(C) = 0 \/ \A i \in DOMAIN C : AClose(Dot(C[i], x), d[i], tol ** (MaxMag(C[i]) ** sx ++ Mag(d[i])))>>,
              <<"optimal", Len(Ci) < Len(C) \/ \A i \in DOMAIN g : AClose(g[i], 0, tol ** sa ** ((sa ** sx) ++ MaxMag(b)))>>})
RowTrunc(ev, r) == \* a diagonal problem: singular values below the cut-off do not contribute
    LET x == Vec(r.o)  b == Vec(r.b)  d == Vec(r.d)  s == Vec(r.s)  cut == N(r.rcond)
    IN Fails({<<"truncated", \A i \in DOMAIN x : Close(x[i], IF i <= Len(d) THEN d[i] ELSE IF Lt(s[i], cut) THEN Zero ELSE b[i] // s[i], "1e-9", "1e-12")>>})
C22Abs0(session) == 0
C22Step(st, ev) ==
    [st |-> st, bad |->
      CASE ev.op = "orth_compl" -> LET F(r) == RowOrth(ev, r) IN JudgeRows(ev, F)
        [] ev.op \in {"orth-reject", "mismatch"} -> RaisesOneOf(ev, {"ValueError"})
        [] ev.op = "inconsistent" -> RaisesOneOf(ev, {"LinAlgError"})
        [] ev.op = "lstsq_ec" -> LET F(r) == RowEc(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "truncate" -> LET F(r) == RowTrunc(ev, r) IN JudgeRows(ev, F)
        [] ev.op = "no-unknowns" -> IF ev.exc # "" THEN {"raised-" \o ev.exc} ELSE IF ev.sh THEN {} ELSE {"shape"}]
=============================================================================
