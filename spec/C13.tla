-------------------------------- MODULE C13 ---------------------------------
(* Functions derived from the lattice Green's functions. *)
EXTENDS LatGf, Run

Zs == {"far", "veryfar", "mid", "near", "edge", "imag", "realout", "small"}
Halves == {"upper", "lower"}
Shapes == {"array", "scalar", "pycomplex", "batch"}
Coords == {"2", "3", "4", "5", "7/2", "10", "1000", "1000000000"}
Times == {"huge", "small", "threshold", "mid", "large", "zero", "negative", "mixed"}
C13Scenarios ==
       [op : {"gf_d1_z", "gf_d2_z", "gf_z_inv", "gf_z_inv-roundtrip", "stress_trafo"}, z : Zs, half : Halves, shape : {"array"}]
  \cup [op : {"gf_d1_z", "gf_d2_z", "gf_z_inv", "stress_trafo"}, z : {"mid"}, half : {"upper"}, shape : Shapes]
  \cup [op : {"bethez-gf_z"}, z : Zs, half : Halves, shape : {"array"}, Z : Coords]
  \cup [op : {"bethez-gf_z"}, z : {"mid"}, half : {"upper"}, shape : Shapes, Z : {"3"}]
  \cup [op : {"bethez-dos"}, e : {"inside", "outside", "edge", "zero"}, shape : {"array", "pycomplex", "batch"}, Z : Coords]
  \cup [op : {"bethe-gf_ret_t", "box-gf_ret_t"}, t : Times, center : {"none", "zero", "scalar", "batch", "withzero"}, shape : {"array", "pycomplex"}]

\* Bethe lattice of coordination number infinity, half-bandwidth D
Q(x) == SqrtN(x -- 1) ** SqrtN(x ++ 1)
BetheD1(x, D) == (2 ** (One -- (x // Q(x)))) // Sq(D)
BetheD2(x, D) == N(2) // PowN(D ** Q(x), 3)
BetheD3(x, D) == NegN((6 ** x)) // (PowN(D, 4) ** PowN(Q(x), 5))
\* coordination Z: a site couples to Z branches, the root of a branch to Z - 1 further branches; t^2 = D^2/4/(Z - 1)
Branch(z, D) == (2 ** (z -- (D ** Q(z // D)))) // Sq(D) \* F = 1/(z - (Z - 1) t^2 F)
BetheZ(z, D, Z) == One // (z -- ((Z ** Sq(D) ** Branch(z, D)) // (4 ** (Z -- 1))))
\* closed walks of length 2n from the root on a tree with Z branches: by the number of walks at distance d
TreeStep(v, Z) == Vec([d \in 1..Len(v) |-> (IF d > 1 THEN v[d - 1] ELSE Zero)
                                        ++ (IF d < Len(v) THEN v[d + 1] ** (IF d = 1 THEN Z ELSE Z -- 1) ELSE Zero)])
\* v[d] = number of walks from a vertex at distance d-1 back to the root of the remaining length
RECURSIVE TreeWalks(_, _, _)
TreeWalks(v, n, Z) == IF n = 0 THEN v[1] ELSE TreeWalks(TreeStep(v, Z), n - 1, Z)
TreeMoment(m, Z) == TreeWalks([d \in 1..(m + 2) |-> IF d = 1 THEN One ELSE Zero], m, Z)
\* density of states and real time function, half-bandwidth one
\* sum_k M_2k (-x^2)^k/(2k)!  with M_2k = Catalan_k/4^k (Bethe) or 1/(2k+1) (box)
RECURSIVE Series0(_, _, _, _, _)
Series0(box, x2, k, term, acc) ==
    IF Le(Mag(term), N("1e-40")) /\ k > 2 THEN acc ++ term
    ELSE Series0(box, x2, k + 1,
                 IF box THEN NegN(term ** x2) // N((2 * k + 2) * (2 * k + 3)) ELSE NegN(term ** x2) // N(4 * (k + 1) * (k + 2)), acc ++ term)
\* large arguments: sin(x)/x and 2 J_1(x)/x by the trapezoidal rule for the periodic (2/pi) int_0^pi sin(th)^2 cos(x cos(th)), n > x/2
Large0(box, x) ==
    IF box THEN SinN(x) // x ELSE
    LET n == FloorN(x) \div 2 + 60
        f(k) == LET th == (PiN ** N(k)) // N(n) IN Sq(SinN(th)) ** CosN(x ** CosN(th))
    IN (2 ** SumN([k \in 1..n |-> f(k - 1)])) // N(n)
RetT(box, t, D) == IF Lt(t, 0) THEN Zero ELSE NegN(IU) ** (IF Lt(D ** t, 60) THEN Series0(box, Sq(D ** t), 0, One, Zero) ELSE Large0(box, D ** t))

C13SelfCheck(sc) ==
    CASE sc.op = "bethez-gf_z" /\ sc.z = "far" /\ sc.half = "upper" ->
           LET Z == N(sc.Z)  z == N("4,3")  G == BetheZ(z, One, Z)  t2 == One // (4 ** (Z -- 1))
           IN Fails({<<"tree-walks", Close(G, SumN([k \in 1..31 |-> (PowN(t2, k - 1) ** TreeMoment(2 * (k - 1), Z)) // PowN(z, 2 * k - 1)]), "1e-12", 0)>>,
                     <<"chain", sc.Z = "2" => Close(G, LatGreen("onedim", z, One, One).g, "1e-20", 0)>>,
                     <<"infinite", sc.Z = "1000000000" => Close(G, LatGreen("bethe", z, One, One).g, "1e-8", 0)>>})
      [] sc.op = "gf_d1_z" /\ sc.z = "mid" ->
           LET x == N("1/3,1/7")  h == N("1e-25")
           IN Fails({<<"d1", Close(BetheD1(x, One), LatGreen("bethe", x, One, One).d, "1e-20", 0)>>,
                     <<"d2", Close(BetheD2(x, One), (BetheD1(x ++ h, One) -- BetheD1(x, One)) // h, "1e-15", 0)>>,
                     <<"d3", Close(BetheD3(x, One), (BetheD2(x ++ h, One) -- BetheD2(x, One)) // h, "1e-15", 0)>>})
      [] sc.op = "bethe-gf_ret_t" /\ sc.t = "mid" -> \* the Laplace transform of the moments: int e^(i z t) G(t) dt = sum_k M_k / z^(k+1); derivative at zero
           Fails({<<"norm", Close(RetT(FALSE, Zero, One), NegN(IU), 0, "1e-30")>>,
                  <<"sinc", Close(RetT(TRUE, N("5/2"), N(3)), NegN(IU) ** (SinN(N("15/2")) // N("15/2")), "1e-30", 0)>>})
      [] OTHER -> {}

RowZ(ev, r) ==
    LET D == N(r.D)  z == N(r.z)  o == N(r.o)  x == z // D
        far == One ++ Sq(Mag(x))
        rtol == MaxN(N("1e-11"), N("1e-16") ** far)
        zt == N("1e-14") ** (Mag(z) ++ D)
    IN CASE ev.op = "gf_d1_z" -> Fails({<<"derivative", AClose(o, BetheD1(x, D), (rtol ** Mag(BetheD1(x, D))) ++ (zt ** Mag(BetheD2(x, D))))>>})
         [] ev.op = "gf_d2_z" -> Fails({<<"second-derivative", AClose(o, BetheD2(x, D), (rtol ** Mag(BetheD2(x, D))) ++ (zt ** Mag(BetheD3(x, D))))>>})
         [] ev.op = "gf_z_inv" -> Fails({<<"inverse", RClose(o, ((Sq(D) ** z) // 4) ++ (One // z), N("1e-13") ** ((Mag(Sq(D) ** z) ++ Mag(One // z)) // Mag(((Sq(D) ** z) // 4) ++ (One // z))))>>})
         [] ev.op = "gf_z_inv-roundtrip" -> Fails({<<"round-trip", AClose(o, z, (N("1e-11") ** far ** (Mag(z) ++ D) ** N("1e-2")) ++ (N("1e-11") ** Mag(z)))>>})
         [] ev.op = "stress_trafo" ->
              LET g == LatGreen("square", z, D, One)
                  e == NegN((z ** g.g) -- 1) // 2
              IN Fails({<<"stress", AClose(o, e, N("1e-10") ++ (zt ** Mag(z) ** Mag(g.d)))>>})
         [] ev.op = "bethez-gf_z" ->
              LET Z == N(r.Z)  g == BetheZ(z, D, Z)  h == D ** N("1e-20")
                  d == (BetheZ(z ++ h, D, Z) -- g) // h
              IN Fails({<<"recursion", AClose(o, g, (N("1e-11") ** Mag(g)) ++ (zt ** Mag(d)))>>})
         [] ev.op = "bethez-dos" ->
              LET Z == N(r.Z) IN
              IF Lt(D, Mag(z)) THEN Fails({<<"zero-outside", Le(Mag(o), N("1e-14") // D)>>})
              ELSE LET g == NegN(Im(BetheZ(Cplx(Re(z), D ** N("1e-60")), D, Z))) // PiN
                       s == SqrtN(MaxN(N("1e-30"), One -- Sq(Mag(x))))
                   IN IF Same(Mag(z), D) /\ ~IsFin(o) THEN Fails({<<"edge", Same(Z, 2)>>})
                      ELSE IF Same(Mag(z), D) THEN Fails({<<"edge", Le(Mag(o), N("1e-6") // D)>>})
                      ELSE Fails({<<"dos", Close(o, g, N("1e-11") ++ (N("1e-14") // Sq(s)), N("1e-13") // D)>>})
RowT(ev, r) ==
    LET D == N(r.D)  t == N(r.t)  c == N(r.c)
        e == RetT(ev.op = "box-gf_ret_t", t, D) ** ExpN(NegN(IU ** c ** D ** t))
    IN Fails({<<"real-time", AClose(N(r.o), e, N("1e-12") ++ (N("1e-14") ** Mag(c ** D ** t)))>>})
C13Abs0(session) == <<>>
C13Step(st, ev) == [st |-> st, bad |-> LET F(r) == IF Has(r, "t") THEN RowT(ev, r) ELSE RowZ(ev, r) IN JudgeRows(ev, F)]
=============================================================================
