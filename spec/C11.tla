-------------------------------- MODULE C11 ---------------------------------
(* Lattice Green's functions on the whole complex plane. *)
EXTENDS LatGf, Run

Lat11 == Lattices \cup {"rectangular"}
Zs == {"far", "veryfar", "outside", "mid", "near1", "near2", "near3", "vanhove", "imag", "edge", "realout", "small", "line", "special"}
C11Scenarios ==
       [op : {"gf_z"}, lat : Lat11, z : Zs, half : {"upper", "lower"}, via : {"gf_z"}, shape : {"array"}]
  \cup [op : {"gf_z"}, lat : Lat11, z : {"mid"}, half : {"upper", "lower"}, via : {"hilbert_transform", "alias", "alias-hilbert"}, shape : {"array"}]
  \cup [op : {"gf_z"}, lat : Lat11, z : {"mid", "near2", "outside"}, half : {"upper", "lower"}, via : {"gf_z"}, shape : {"scalar", "pycomplex", "batch", "empty", "longdouble"}]
  \cup [op : {"gf_z"}, lat : {"sc"}, z : Zs \ {"veryfar"}, half : {"upper", "lower"}, via : {"mp15", "mp30"}, shape : {"scalar"}]

\* a point of every region for the theorems of the specification
C11SelfCheck(sc) ==
    IF sc.via # "gf_z" \/ sc.shape # "array" \/ sc.half = "lower" \/ sc.z \notin {"far", "mid"} THEN {} ELSE
    LET z == IF sc.z = "far" THEN N("3,2") ELSE N("1/3,1/5")
        s == LatGreen(sc.lat, z, N(1), N("1/2"))
        h == N("1e-20")
        d == (LatGreen(sc.lat, z ++ h, N(1), N("1/2")).g -- s.g) // h
        RectMoment(m) == IF m % 2 = 1 THEN Zero ELSE (Central(m \div 2) ** SumN([k \in 1..(m \div 2 + 1) |-> Sq(Binom(m \div 2, k - 1)) ** PowN(N("1/4"), k - 1)])) // PowN(N(3), m)
        Mom(m) == IF sc.lat = "rectangular" THEN RectMoment(m) ELSE LatMoment(sc.lat, m)
    IN Fails({<<"derivative", Close(s.d, d, "1e-15", 0)>>,
              <<"retarded", Lt(Im(s.g), 0)>>,
              <<"walk-expansion", sc.z = "far" => Close(s.g, SumN([m \in 1..33 |-> Mom(m - 1) // PowN(z, m)]), "1e-11", 0)>>})

Row(ev, r) ==
    LET z == N(r.z)  D == N(r.D)  o == N(r.o)
        s == LatGreenN(ev.lat, z, D, N(r.scale), ev.terms)
        far == ev.lat = "box" /\ Lt(4 ** D, Mag(z))  \* a logarithm of (z+D)/(z-D) looses digits
        tol == ((IF far THEN N("1e-15") ** (Mag(z) // D) ELSE N(0)) ** Mag(s.g)) ++ (N(ev.rtol) ** Mag(s.g)) ++ (N(ev.ztol) ** Mag(s.d) ** (Mag(z) ++ D))
    IN Fails({<<"green-function", Close(o, s.g, 0, tol)>>})
C11Abs0(session) == <<>>
C11Step(st, ev) == [st |-> st, bad |-> LET F(r) == Row(ev, r) IN JudgeRows(ev, F)]
=============================================================================
