-------------------------------- MODULE C14 ---------------------------------
(***************************************************************************)
(* Decompositions represent matrices.  The state of a session is the stack *)
(* of matrices the decomposition object represents; replacing its          *)
(* eigenvalues by f(eigenvalues) turns it into f(matrix), and every        *)
(* reconstruction has to give the represented matrix.                      *)
(***************************************************************************)
EXTENDS LatGf, Run

Kinds == {"mat", "sym", "her", "from_hamiltonian", "from_gf", "decompose_gf", "decompose_hamiltonian"}
Ops == {"full", "diag", "fu", "D", "einsum", "einsum-recip", "full-recip", "diag-shift", "set-recip", "set-shift", "getitem", "wrap", "full-zero", "diag-zero"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Long == <<"full", "diag", "set-shift", "full", "full-recip", "set-recip", "diag", "diag-shift", "einsum", "einsum-recip", "getitem", "full-zero", "diag-zero", "full">>
Short == <<"full", "diag", "einsum-recip", "set-shift", "full-recip", "diag-shift", "getitem">>
C14Scenarios ==
       [op : {"session"}, kind : Kinds, n : {1, 2, 3, 4}, dtype : {"real", "complex", "int"}, shape : {"none", "3", "2x2"}, struct : {"random"}, seq : {Long}]
  \cup [op : {"session"}, kind : Kinds, n : {6, 8, 11}, dtype : {"real", "complex"}, shape : {"none"}, struct : {"random"}, seq : {Short}]
  \cup [op : {"session"}, kind : {"sym", "her", "mat"}, n : {3}, dtype : {"real"}, shape : {"none"}, struct : {"diagonal", "identity", "zero"}, seq : {Long}]
  \cup [op : {"session"}, kind : {"mat", "her"}, n : {3}, dtype : {"complex"}, shape : {"2"}, struct : {"random"}, seq : SeqsUpTo(Ops, 2)]
  \cup [op : {"reject"}, kind : {"sym", "her"}, n : {2, 3}, dtype : {"real", "complex"}, shape : {"none", "3"}, check : {"default", "true", "false"}, bad : {"no", "one", "all", "slightly", "imaginary"}]
  \cup [op : {"gf_2x2_z"}, dtype : {"real", "complex", "selfenergy"}, hilbert : {"none", "bethe"}, half : {"upper", "lower"}, shape : {"none", "3", "2x3", "bcast"}]
  \cup [op : {"construct_gf"}, n : {1, 2, 4}, dtype : {"real", "complex"}]

ShiftM(z, A) == Mat(MSub(DiagM([i \in DOMAIN A |-> z]), A)) \* z - A
FNorm(A) == SqrtN(SumN([i \in DOMAIN A |-> VNorm2(A[i])]))

C14SelfCheck(sc) == IF sc.op # "gf_2x2_z" \/ sc.shape # "none" THEN {} ELSE
    LET A == <<<<N("1/3"), N("1/2,1/5")>>, <<N("1/2,-1/5"), N("-2")>>>>  z == N("1/7,1/3")
        I == Inv(ShiftM(z, A))
    IN Fails({<<"inverse", MatClose(MatMul(I, ShiftM(z, A)), Ident(2), "1e-40", "1e-40")>>})

(* state: <<>> before, else [m: matrices, c: condition numbers of the eigenvector matrices, rv, rvi: the recorded vectors] *)
Decomp(ev) ==
    IF ev.exc # "" THEN [st |-> <<>>, bad |-> {"raised-" \o ev.exc}]
    ELSE IF ~ev.sh THEN [st |-> <<>>, bad |-> {"shape"}]
    ELSE
    LET R(i) == ev.rows[i]
        A(i) == Mat(R(i).mat)  V(i) == Mat(R(i).rv)  W(i) == Mat(R(i).rv_inv)  E(i) == Vec(R(i).eig)
        n == Len(A(1))
        One1(i) ==
            LET a == A(i)  v == V(i)  w == W(i)  e == E(i)
                cond == FNorm(v) ** FNorm(Inv(v))
                tol == N("1e-12") ** cond ** (MaxMagM(a) ++ N("1e-30"))
            IN Fails({<<"reconstruction", MatClose(MatMul(MatMul(v, DiagM(e)), w), a, 0, tol)>>,
                      <<"inverse-vectors", MatClose(MatMul(w, v), Ident(n), 0, N("1e-12") ** cond)>>,
                      <<"unitary", ev.her => MatClose(w, Adj(v), "1e-12", "1e-12")>>,
                      <<"real-eigenvalues", ev.her => \A k \in 1..n : Same(Im(e[k]), 0)>>,
                      <<"orthogonal", (ev.kind = "sym" /\ ev.generic) => MatClose(w, Transp(v), 0, N("1e-8") ** Sq(cond))>>})
            \cup (IF ~ev.her THEN {} ELSE
                  LET s == Vec(R(i).s)
                      mags == [k \in 1..n |-> Mag(e[k])]
                      Count(q, t) == Cardinality({k \in 1..n : AClose(q[k], t, N("1e-10") ** (One ++ MaxMagM(a)))})
                  IN Fails({<<"singular-values-sorted", \A k \in 1..(n - 1) : Le(s[k + 1], s[k])>>,
                            <<"singular-values", Len(s) = n /\ \A k \in 1..n : Count(s, mags[k]) = Count(mags, mags[k]) /\ Count(s, s[k]) = Count(mags, s[k])>>,
                            <<"aliases", R(i).u = R(i).rv /\ R(i).uh = R(i).rv_inv>>}))
    IN [bad |-> UNION {One1(i) : i \in DOMAIN ev.rows},
        st |-> [i \in DOMAIN ev.rows |-> LET v == V(i) IN [m |-> A(i), c |-> FNorm(v) ** FNorm(Inv(v)), rv |-> R(i).rv, rv_inv |-> R(i).rv_inv]]]

Act(st, ev) ==
    IF ev.exc # "" THEN [st |-> st, bad |-> {"raised-" \o ev.exc}]
    ELSE IF ~ev.sh THEN [st |-> st, bad |-> {"shape"}]
    ELSE IF st = <<>> THEN [st |-> st, bad |-> {}]
    ELSE
    LET z == N(ev.shift)
        New(i) == CASE ev.act = "set-recip" -> [st[i] EXCEPT !.m = Inv(st[i].m)]
                    [] ev.act = "set-shift" -> [st[i] EXCEPT !.m = ShiftM(z, st[i].m)]
                    [] OTHER -> st[i]
        Want(i) == CASE ev.act \in {"full-recip", "einsum-recip"} -> Inv(st[i].m)
                     [] ev.act = "diag-shift" -> ShiftM(z, st[i].m)
                     [] ev.act \in {"full-zero", "diag-zero"} -> MScale(Zero, st[i].m)
                     [] OTHER -> st[i].m
        Bad(i) ==
            LET w == Want(i)
                tol == N("1e-11") ** st[i].c ** (MaxMagM(w) ++ MaxMagM(st[i].m) ++ (IF ev.act \in {"full-recip", "einsum-recip"} THEN MaxMagM(st[i].m) ** Sq(MaxMagM(w)) ELSE Zero))
                       ** (IF ev.k = 0 THEN One ELSE N(ev.growth))
            IN CASE ev.act \in {"set-recip", "set-shift"} -> {}
                 [] ev.act \in {"full", "fu", "full-recip", "einsum", "einsum-recip", "full-zero"} -> Fails({<<"reconstruct-full", MatClose(Mat(ev.rows[i].o), w, 0, tol)>>})
                 [] ev.act \in {"diag", "D", "diag-shift", "diag-zero"} -> Fails({<<"reconstruct-diag", VecClose(Vec(ev.rows[i].o), Diag(w), 0, tol)>>})
                 [] ev.act = "getitem" -> Fails({<<"sequence", ev.len = 3 /\ ev.rows[i].a = st[i].rv /\ ev.rows[i].b = st[i].rv_inv /\ ev.rows[i].e = ev.rows[i].eig>>})
                 [] ev.act = "wrap" -> Fails({<<"idempotent", ev.same>>})
    IN [st |-> [i \in DOMAIN st |-> New(i)], bad |-> UNION {Bad(i) : i \in DOMAIN ev.rows}]

\* 2x2 system: elements of f(z - A), A = ((e0, t), (t*, e1)), by the two eigenvalues
Row2(ev, r) ==
    LET z == N(r.z)  e0 == N(r.e0)  e1 == N(r.e1)  t == N(r.t)
        s == SqrtN((Sq(e0 -- e1) // 4) ++ (t ** Conj(t)))  m == (e0 ++ e1) // 2
        gp == IF ev.hilbert = "none" THEN One // (z -- (m ++ s)) ELSE LatGreen("bethe", z -- (m ++ s), One, One).g
        gm == IF ev.hilbert = "none" THEN One // (z -- (m -- s)) ELSE LatGreen("bethe", z -- (m -- s), One, One).g
        El(e) == (((e -- (m -- s)) ** gp) -- ((e -- (m ++ s)) ** gm)) // (2 ** s)
        det == ((z -- e0) ** (z -- e1)) -- (t ** Conj(t))
        sc == (One ++ Mag(e0) ++ Mag(e1) ++ Mag(s)) // Mag(s)
        big == MaxN(Mag(gp), Mag(gm))
        tol == N("1e-12") ** sc ** big ** (One ++ (big ** (Mag(z) ++ Mag(e0) ++ Mag(e1) ++ Mag(s))))
    IN Fails({<<"element-0", AClose(N(r.o[1]), IF ev.hilbert = "none" THEN (z -- e1) // det ELSE El(e0), tol)>>,
              <<"element-1", AClose(N(r.o[2]), IF ev.hilbert = "none" THEN (z -- e0) // det ELSE El(e1), tol)>>})
RowC(ev, r) == \* G = P h^-1 P^-1
    LET P == Mat(r.rv)  Q == Mat(r.rv_inv)  d == Vec(r.d)
    IN Fails({<<"construct", MatClose(Mat(r.o), MatMul(MatMul(P, DiagM(d)), Q), 0, N("1e-12") ** FNorm(P) ** FNorm(Q) ** MaxMag(d))>>})

C14Abs0(session) == <<>>
C14Step(st, ev) ==
    CASE ev.op = "decompose" -> Decomp(ev)
      [] ev.op = "act" -> Act(st, ev)
      [] ev.op = "reject" -> [st |-> st, bad |-> IF ev.must THEN RaisesOneOf(ev, {"ValueError"}) ELSE Fails({<<"accepted", ev.exc = "">>})]
      [] ev.op = "gf_2x2_z" -> [st |-> st, bad |-> LET F(r) == Row2(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "construct_gf" -> [st |-> st, bad |-> LET F(r) == RowC(ev, r) IN JudgeRows(ev, F)]
=============================================================================
