-------------------------------- MODULE C15 ---------------------------------
(***************************************************************************)
(* Non-interacting single impurity Anderson model.  The state of a session *)
(* is the stack of one-particle Hamiltonians; every function is a matrix   *)
(* function of it:                                                         *)
(*   G(z) = [(z - H)^-1]_00,  Delta(z) = z - e - 1/G(z),                   *)
(*   G^ret(t) = -i theta(t) [e^(-iHt)]_00,                                 *)
(*   G^>(t) = -i [(1 + e^(-beta H))^-1 e^(-iHt)]_00,                       *)
(*   G^<(t) = +i [(1 + e^(beta H))^-1 e^(-iHt)]_00.                        *)
(***************************************************************************)
EXTENDS Run

All == <<"ham", "ret", "gr", "le", "gf0", "hyb", "ham">>
Orders == {All, <<"le", "gr", "ret", "ham">>, <<"gf0", "ret", "gf0", "hyb">>}
C15Scenarios ==
       [nb : {1, 2, 3, 5}, dtype : {"float", "complex", "int", "inthop", "intbath"}, shape : {"none", "3", "2x2", "bcast", "tbatch"}, time : {"mixed", "zero", "long"}, seq : {All}]
  \cup [nb : {8, 12}, dtype : {"float", "complex", "int"}, shape : {"none"}, time : {"mixed"}, seq : {All}]
  \cup [nb : {2}, dtype : {"float", "complex", "int", "inthop", "intbath", "intonsite+hop"}, shape : {"none", "bcast"}, time : {"mixed", "zero", "long"}, seq : Orders]
  \cup [nb : {1, 3}, dtype : {"float", "complex"}, shape : {"none", "3"}, time : {"mixed", "long"}, seq : {All}, unit : {"tiny", "huge"}]
  \cup [nb : {2}, dtype : {"degenerate", "zerohop", "wide"}, shape : {"none", "3"}, time : {"mixed", "zero"}, seq : Orders]

RECURSIVE TaylorM(_, _, _, _)
TaylorM(A, k, term, acc) == IF k > 90 \/ Le(MaxMagM(term), N("1e-70")) THEN acc
                            ELSE LET t == Mat(MatMul(term, A))  u == Mat([i \in DOMAIN t |-> VScale(One // k, t[i])]) IN TaylorM(A, k + 1, u, Mat(MAdd(acc, u)))
RECURSIVE Square(_, _)
Square(A, k) == IF k = 0 THEN A ELSE Square(Mat(MatMul(A, A)), k - 1)
RECURSIVE Halvings(_, _)
Halvings(x, k) == IF Le(x, 1) THEN k ELSE Halvings(x // 2, k + 1)
Expm(A) == LET k == Halvings(MaxMagM(A) ** N(Len(A)), 0)
               B == MScale(PowN(Half, k), A)
           IN Square(TaylorM(B, 1, Mat(Ident(Len(A))), Mat(Ident(Len(A)))), k)
Unit0(n) == [i \in 1..n |-> IF i = 1 THEN One ELSE Zero]
Ham(e0, eb, v) == Mat([i \in 1..(Len(eb) + 1) |-> [j \in 1..(Len(eb) + 1) |->
    CASE i = 1 /\ j = 1 -> e0 [] i = 1 /\ j > 1 -> v[j - 1] [] i > 1 /\ j = 1 -> Conj(v[i - 1]) [] OTHER -> (IF i = j THEN eb[i - 1] ELSE Zero)]])
Corner(H, z) == SolveN(MSub(DiagM([i \in DOMAIN H |-> z]), H), Unit0(Len(H)))[1]
EvolveRow(H, t) == Expm(MScale(NegN(IU ** t), H))
\* [(1 + e^(s H))^-1 e^(-iHt)]_00
Weighted(H, s, t) == LET n == Len(H)  U == EvolveRow(H, t)  F == Mat(MAdd(Ident(n), Expm(MScale(s, H))))
                     IN SolveN(F, [i \in 1..n |-> U[i][1]])[1]
Ret(H, t) == IF Lt(t, 0) THEN Zero ELSE NegN(IU) ** EvolveRow(H, t)[1][1]
Gr(H, t, beta) == NegN(IU) ** Weighted(H, NegN(beta), t)
Le_(H, t, beta) == IU ** Weighted(H, beta, t)

C15SelfCheck(sc) == IF sc.shape # "none" \/ sc.dtype # "float" \/ sc.time # "mixed" \/ sc.seq[1] # "le" THEN {} ELSE
    LET eb == [k \in 1..sc.nb |-> (N(k) // 3) -- 1]  v == [k \in 1..sc.nb |-> Cplx(N(1) // (k + 1), N(k) // 7)]
        H == Ham(N("1/5"), Vec(eb), Vec(v))  z == N("1/3,1/2")  t == N("7/4")  b == N(3)
        D == SumN([k \in 1..sc.nb |-> (v[k] ** Conj(v[k])) // (z -- eb[k])])
    IN Fails({<<"integrated-out", Close(Corner(H, z), One // (z -- N("1/5") -- D), "1e-40", 0)>>,
              <<"ret-gr-le", Close(Ret(H, t), Gr(H, t, b) -- Le_(H, t, b), "1e-40", 0)>>,
              <<"kms", Close(Le_(H, Zero, b) // IU, One -- (IU ** Gr(H, Zero, b)), "1e-40", 0)>>})

Judge(st, ev, r) ==
    LET H == st[r.i + 1]
        t == N(r.t)  beta == N(ev.beta)
        w == MaxMagM(H) ** N(Len(H))
        tol == N("4e-12") ** (One ++ (w ** Mag(t)))
    IN CASE ev.op = "ham" -> Fails({<<"hamiltonian", MatClose(Mat(r.o), H, 0, N("1e-14") ** w)>>})
         [] ev.op = "hyb" -> LET z == N(r.z)
                                 D == SumN([k \in 1..(Len(H) - 1) |-> (H[1][k + 1] ** H[k + 1][1]) // (z -- H[k + 1][k + 1])])
                                 a == SumN([k \in 1..(Len(H) - 1) |-> Mag(H[1][k + 1] ** H[k + 1][1]) // Sq(Mag(z -- H[k + 1][k + 1]))])
                             IN Fails({<<"hybridization", AClose(N(r.o), D, N("1e-13") ** a ** (w ++ Mag(z)))>>})
         [] ev.op = "gf0" -> LET z == N(r.z)  g == Corner(H, z)
                             IN Fails({<<"local-gf", RClose(N(r.o), g, N("1e-13") ** (One ++ ((w ++ Mag(z)) // Mag(Im(z)))))>>})
         [] ev.op = "ret" -> Fails({<<"retarded", AClose(N(r.o), Ret(H, t), tol)>>})
         [] ev.op = "gr" -> Fails({<<"greater", AClose(N(r.o), Gr(H, t, beta), tol ** (One ++ (w ** beta)))>>})
         [] ev.op = "le" -> Fails({<<"lesser", AClose(N(r.o), Le_(H, t, beta), tol ** (One ++ (w ** beta)))>>})

C15Abs0(session) == [i \in DOMAIN session.models |-> LET m == session.models[i] IN Ham(N(m.e0), Vec(m.eb), Vec(m.v))]
C15Step(st, ev) == [st |-> st, bad |-> LET F(r) == Judge(st, ev, r) IN JudgeRows(ev, F)]
=============================================================================
