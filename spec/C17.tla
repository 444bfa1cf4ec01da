-------------------------------- MODULE C17 ---------------------------------
(***************************************************************************)
(* Blackman-Esterling-Berk theory.  The components of an alloy form a      *)
(* matrix problem: with M = z - S (S the self-energy matrix) and hopping   *)
(* eps*T the local Green's function is the lattice average of              *)
(* (M - eps*T)^-1, for every Hermitian T of any rank.  The lattice is      *)
(* either a finite set of levels (the average is a finite sum) or the      *)
(* Bethe lattice, where G = (M - D^2/4 T G T)^-1.  S is the BEB            *)
(* self-energy iff G^-1 is diagonal with elements (1/G_ii + S_ii - e_i)/c_i*)
(***************************************************************************)
EXTENDS LatGf, Run

Ranks == {"full", "indefinite", "one", "ones", "zero-row", "identity", "low", "near+", "near-"}
C17Scenarios ==
       [op : {"spec-dec"}, n : {1, 2, 3, 4}, rank : Ranks, dtype : {"real", "complex"}, rcond : {"none", "small", "cut"}]
  \cup [op : {"gf_loc_z"}, n : {1, 2, 3}, rank : Ranks, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, diag : {"default", "true", "false"}, shape : {"none", "3", "2x2"}, self : {"matrix", "diagonal", "zero"}, half : {"upper"}]
  \cup [op : {"gf_loc_z"}, n : {4, 5}, rank : Ranks, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, diag : {"default", "false"}, shape : {"none"}, self : {"matrix"}, half : {"upper"}]
  \cup [op : {"self_root_eq", "restrict"}, n : {4, 5}, rank : Ranks, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, shape : {"none"}, self : {"physical", "mixed"}]
  \cup [op : {"solve_root"}, n : {4, 5}, rank : {"full", "one", "indefinite"}, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, z : {"matsubara", "broad"}, shape : {"none"},
        start : {"none", "given"}, restricted : {FALSE}, tol : {"default"}, e : {"real"}]
  \cup [op : {"gf_loc_z"}, n : {1, 2, 3}, rank : Ranks, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, diag : {"default", "false"}, shape : {"3"}, self : {"matrix", "zero"}, half : {"lower", "both"}]
  \cup [op : {"self_root_eq", "restrict"}, n : {1, 2, 3}, rank : Ranks, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, shape : {"none", "3", "2x2"}, self : {"physical", "mixed"}]
  \cup [op : {"solve_root"}, n : {1, 2, 3}, rank : {"full", "one", "ones", "indefinite"}, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, z : {"matsubara", "broad"}, shape : {"none", "3"},
        start : {"none", "given", "scalar"}, restricted : BOOLEAN, tol : {"default", "1e-10"}, e : {"real", "batched"}]
  \cup [op : {"solve_root"}, n : {1, 2, 3}, rank : {"full", "one", "ones", "indefinite"}, dtype : {"real", "complex"}, lat : {"levels", "bethe"}, z : {"lower", "both"}, shape : {"none", "3"},
        start : {"none", "given"}, restricted : {FALSE}, tol : {"default"}, e : {"real"}]

\* lattice average for finitely many levels
AvgLevels(M, T, eps, w) ==
    LET R == Strict([k \in DOMAIN eps |-> MScale(w[k], Inv(MSub(M, MScale(eps[k], T))))])
    IN Mat([i \in DOMAIN M |-> [j \in DOMAIN M |-> SumN([k \in DOMAIN eps |-> R[k][i][j]])]])
\* Bethe lattice: X = G^-1 solves X + A X^-1 A = M, A = D/2 T; cyclic reduction converges to the decaying solution
RECURSIVE Cyclic(_, _, _, _)
Cyclic(X, A, Q, k) ==
    IF k = 0 \/ Le(MaxMagM(A), N("1e-70")) THEN X
    ELSE LET P == Mat(MatMul(MatMul(A, Inv(Q)), A))
         IN Cyclic(Mat(MSub(X, P)), P, Mat(MSub(MSub(Q, P), P)), k - 1)
AvgBethe(M, T, D) == LET B == MScale(D // 2, T) IN Inv(Cyclic(M, B, M, 40))
Avg(ev, M, T) == IF ev.lat = "levels" THEN AvgLevels(M, T, Vec(ev.eps), Vec(ev.w)) ELSE AvgBethe(M, T, N(ev.D))
Root(G, S, e, c) ==
    LET X == Inv(G) IN Mat([i \in DOMAIN G |-> [j \in DOMAIN G |-> IF i = j THEN X[i][i] -- ((X[i][i] ++ S[i][i] -- e[i]) // c[i]) ELSE X[i][j]]])
ZMinus(z, S) == Mat([i \in DOMAIN S |-> [j \in DOMAIN S |-> IF i = j THEN z -- S[i][i] ELSE NegN(S[i][j])]])

C17SelfCheck(sc) ==
    IF sc.op # "gf_loc_z" \/ sc.shape # "none" \/ sc.diag # "default" \/ sc.lat # "bethe" \/ sc.self # "zero" THEN {} ELSE
    LET n == sc.n  z == N("1/5,1/3")
        T == CASE sc.rank \in {"one", "ones"} -> [i \in 1..n |-> [j \in 1..n |-> One]]
               [] sc.rank = "identity" -> Ident(n)
               [] OTHER -> [i \in 1..n |-> [j \in 1..n |-> N("1/2") // (i + j)]]
        S == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Cplx(N(i) // 7, NegN(N(1) // (i + 2))) ELSE Cplx(Zero, N("1/50"))]]
        M == ZMinus(z, S)  G == AvgBethe(M, T, One)
        TGT == MatMul(MatMul(T, G), T)
    IN Fails({<<"bethe", MatClose(MatMul(G, MSub(M, MScale(N("1/4"), TGT))), Ident(n), "1e-60", "1e-60")>>,
              <<"scalar", n = 1 => Close(G[1][1], LatGreen("bethe", M[1][1] // T[1][1], One, One).g // T[1][1], "1e-17", 0)>>,
              <<"causal", \A i \in 1..n : Lt(Im(G[i][i]), 0)>>})

FNorm(A) == SqrtN(SumN([i \in DOMAIN A |-> VNorm2(A[i])]))
RowDec(ev, r) ==
    LET T == Mat(r.t)  us == Mat(r.us)  suh == Mat(r.suh)  eig == Vec(r.eig)  sq == Vec(r.sq)
        big == MaxMag(eig)
        K == {k \in DOMAIN eig : TRUE}
        prod == IF Len(eig) = 0 THEN [i \in DOMAIN T |-> [j \in DOMAIN T |-> Zero]] ELSE MatMul(us, suh)
        drop == IF ev.cut = "none" THEN N("1e-14") ELSE N(ev.cut)
    IN Fails({<<"partition", MatClose(prod, T, 0, (N(Len(T)) ** drop ** FNorm(T)) ++ (N("1e-13") ** FNorm(T)))>>,
              <<"kept", \A k \in K : Lt(drop ** big ** N("0.001"), Mag(eig[k]))>>,
              <<"rank", ev.exactrank = Len(eig)>>,
              <<"columns", \A i \in DOMAIN us : Len(us[i]) = Len(eig)>>,
              <<"rows", Len(suh) = Len(eig)>>,
              <<"sqrt", \A k \in K : Close(Sq(sq[k]), eig[k], "1e-14", 0)>>,
              <<"is-truncated", ev.trunc = (Len(eig) < Len(T))>>,
              <<"reconstruct", Len(eig) = 0 \/ MatClose(Mat(r.rec), prod, 0, N("1e-12") ** FNorm(T))>>})

RowLoc(ev, r) ==
    LET S == Mat(r.s)  T == Mat(r.t)  M == ZMinus(N(r.z), S)  G == Avg(ev, M, T)
        \* at large frequencies M is a multiple of the identity up to small corrections
        tol == IF Lt(50, Mag(N(r.z))) THEN N("1e-10") ** MaxMagM(G) ELSE N("1e-9") ** Sq(One ++ MaxMagM(M) ++ MaxMagM(G))
    IN IF ev.diag # "false" THEN Fails({<<"local-gf-diagonal", VecClose(Vec(r.o), Diag(G), 0, tol)>>})
       ELSE Fails({<<"local-gf", MatClose(Mat(r.o), G, 0, tol)>>})
Clip(S) == Mat([i \in DOMAIN S |-> [j \in DOMAIN S |-> IF i = j /\ Lt(0, Im(S[i][i])) THEN Cplx(Re(S[i][i]), Zero) ELSE S[i][j]]])
RowRoot(ev, r) ==
    LET S0 == Mat(r.s)  S == IF ev.op = "restrict" THEN Clip(S0) ELSE S0
        T == Mat(r.t)  M == ZMinus(N(r.z), S)  G == Avg(ev, M, T)
        R == Root(G, S, Vec(r.e), Vec(r.c))  o == Mat(r.o)
        X == Inv(G)
        tol == N("1e-9") ** Sq(One ++ MaxMagM(M) ++ MaxMagM(X) ++ MaxMagM(G)) ** (One ++ MaxMagM(R))
        Unphys(i) == ev.op = "restrict" /\ Lt(0, Im(S0[i][i]))
    IN Fails({<<"root-equation", \A i, j \in DOMAIN S : (i # j \/ ~Unphys(i)) => AClose(o[i][j], R[i][j], tol)>>,
              <<"unphysical-penalised", \A i \in DOMAIN S : Unphys(i) => (Lt(Mag(R[i][i]) -- tol, Mag(o[i][i])) /\ Lt(0, Mag(o[i][i])))>>})
RowSolve(ev, r) ==
    LET S0 == Mat(r.s)  S == IF ev.restricted THEN Clip(S0) ELSE S0
        T == Mat(r.t)  M == ZMinus(N(r.z), S)  tol == N(ev.tol)  e == Vec(r.e)  c == Vec(r.c)
        G == Avg(ev, M, T)  n == Len(S)
        R == Root(G, S, e, c)
        g == Diag(G)
        eps == (100 ** tol) ++ N("1e-9")
    IN Fails({<<"finite", \A i, j \in DOMAIN S : IsFin(S0[i][j])>>})
       \cup (IF \E i, j \in DOMAIN S : ~IsFin(S0[i][j]) THEN {} ELSE
       Fails({<<"self-consistent", Le(MaxMagM(R), (2 ** tol) ++ (N("1e-10") ** Sq(One ++ MaxMagM(M))))>>,
              <<"causal", ev.restricted => \A i \in 1..n : Le(Im(S0[i][i]), 2000 ** tol)>>,
              \* each component sees the hybridisation of its neighbours
              <<"locator", ev.lat = "bethe" => \A i \in 1..n :
                    LET hyb == (Sq(N(ev.D)) // 4) ** SumN([j \in 1..n |-> Sq(Mag(T[i][j])) ** g[j]])
                        d == N(r.z) -- e[i] -- hyb
                    IN Close(g[i], c[i] // d, eps ** (One ++ Mag(One // d)) ** Sq(One ++ MaxMagM(M) ++ MaxMagM(G)), eps)>>})
       \cup (IF n > 1 /\ ev.rank = "ones" /\ ev.lat = "bethe" THEN \* component-independent hopping: CPA
             Fails({<<"cpa", \A i \in 1..n : AClose(g[i], c[i] // (N(r.z) -- e[i] -- ((Sq(N(ev.D)) // 4) ** SumN(g))), eps ** PowN(One ++ MaxMagM(M) ++ MaxMagM(G), 3))>>}) ELSE {}))

C17Abs0(session) == <<>>
C17Step(st, ev) ==
    [st |-> st, bad |->
     CASE ev.op = "spec-dec" -> LET F(r) == RowDec(ev, r) IN JudgeRows(ev, F)
       [] ev.op = "gf_loc_z" -> LET F(r) == RowLoc(ev, r) IN JudgeRows(ev, F)
       [] ev.op \in {"self_root_eq", "restrict"} -> LET F(r) == RowRoot(ev, r) IN JudgeRows(ev, F)
       [] ev.op = "solve_root" -> IF ev.exc = "RuntimeError" /\ ev.hard THEN {} ELSE LET F(r) == RowSolve(ev, r) IN JudgeRows(ev, F)]
=============================================================================
