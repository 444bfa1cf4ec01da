-------------------------------- MODULE C12 ---------------------------------
(* Lattice densities of states: minus the imaginary part of the retarded lattice Green's function over pi,      *)
(* which LatGf continues analytically to the real axis; without the flat bands' delta peak.                      *)
EXTENDS LatGf, Run

Lat12 == Lattices \cup {"rectangular"}
WithMp == Lat12 \ {"rectangular", "box"}
Points == {"inside", "edgein", "edgeout", "outside", "far", "vanhove", "small", "integer", "exact", "grid", "hair"}
C12Scenarios ==
       [op : {"dos"}, lat : Lat12, pts : Points, via : {"dos"}, shape : {"array"}]
  \cup [op : {"dos"}, lat : Lat12, pts : {"inside", "integer", "outside"}, via : {"alias"}, shape : {"array"}]
  \cup [op : {"dos"}, lat : Lat12, pts : {"inside", "outside", "integer"}, via : {"dos"}, shape : {"scalar", "pyfloat", "zerod", "batch", "empty", "fortran"}]
  \cup [op : {"dos"}, lat : Lat12, pts : {"inside", "outside"}, via : {"dos", "default"}, shape : {"unit"}]
  \cup [op : {"dos_mp"}, lat : WithMp, pts : {"inside"}, via : {"default"}, shape : {"unit"}]
  \cup [op : {"dos_mp"}, lat : WithMp, pts : Points, via : {"15", "30"}, shape : {"scalar"}]

Lo(lat) == IF lat = "rectangular" THEN NegN(One) ELSE BandLo(lat)
Hi(lat) == IF lat = "rectangular" THEN One ELSE BandHi(lat)
\* points where the density of states diverges (of half-bandwidth one)
Diverge(lat, s) ==
    CASE lat \in {"square", "bcc"} -> {Zero}
      [] lat = "onedim" -> {One, NegN(One)}
      [] lat = "fcc" -> {NegN(Half)}
      [] lat = "honeycomb" -> {N("1/3"), N("-1/3")}
      [] lat = "triangular" -> {N("-4/9")}
      [] lat = "kagome" -> {Zero, N("2/3")}
      [] lat = "lieb" -> {SqrtN(Half), NegN(SqrtN(Half))}
      [] lat = "rectangular" -> {(One -- s) // (One ++ s), (s -- One) // (One ++ s)}
      [] OTHER -> {}
\* points where it is continuous but the differential equation is singular
Kinks(lat) == CASE lat = "sc" -> {Zero, N("1/3"), N("-1/3")} [] lat = "fcc" -> {Zero, Half} [] lat = "kagome" -> {N("1/3")}
                [] lat = "triangular" -> {N("-2/3"), N("4/3")} [] OTHER -> {Zero}
Dos(lat, e, D, s) == NegN(Im(LatGreen(lat, e, D, s).g)) // PiN
Inside(lat, x) == Lt(Lo(lat), x) /\ Lt(x, Hi(lat))

C12SelfCheck(sc) ==
    IF sc.op # "dos" \/ sc.via # "dos" \/ sc.shape # "array" \/ sc.pts # "inside" THEN {} ELSE
    LET w == Hi(sc.lat) -- Lo(sc.lat)
        x(k) == Lo(sc.lat) ++ ((w ** N(k)) // 7)
        s == N("2/3")
    IN Fails({<<"positive", \A k \in 1..6 : Lt(0, Dos(sc.lat, x(k) ++ N("1/1000"), One, s))>>,
              <<"zero-outside", \A k \in {-2, -1, 8, 9} : AClose(Dos(sc.lat, x(k), One, s), Zero, "1e-20")>>,
              <<"even", sc.lat \in Bipartite => \A k \in 1..6 : RClose(Dos(sc.lat, x(k) ++ N("1/1000"), One, s), Dos(sc.lat, NegN(x(k) ++ N("1/1000")), One, s), "1e-20")>>})

RowD(ev, r) ==
    LET D == N(r.D)  e == N(r.e)  o == N(r.o)  s == N(r.scale)
        x == e // D
        atEdge == Le(MinN(Mag(x -- Lo(ev.lat)), Mag(x -- Hi(ev.lat))), N(ev.etol))
        atVh == \E p \in Diverge(ev.lat, s) : Le(Mag(x -- p), N(ev.etol))
    IN IF ~atEdge /\ ~Inside(ev.lat, x) THEN Fails({<<"zero-outside", Le(Mag(o), N("1e-14") // D)>>})
       ELSE IF atVh THEN \* diverges: infinite, or at least as large as a little beside; a band edge may also count as outside
            Fails({<<"van-hove", (atEdge /\ Same(o, 0)) \/ (~IsNaN(o) /\ (~IsFin(o) => Lt(0, o)) /\ (IsFin(o) =>
                        LET q(d) == D ** (x ++ d) IN \/ Le(Dos(ev.lat, q(N("1e-6")), D, s), o) /\ Le(Dos(ev.lat, q(N("-1e-6")), D, s), o)))>>})
       ELSE IF atEdge THEN \* the value at the edge is zero or the limit from inside
            LET y == IF Le(Mag(x -- Lo(ev.lat)), N(ev.etol)) THEN Lo(ev.lat) ++ N("1e-24") ELSE Hi(ev.lat) -- N("1e-24")
                in == Dos(ev.lat, D ** y, D, s)
            IN Fails({<<"band-edge", Same(o, 0) \/ Close(o, in, "1e-6", N("1e-5") // D)>>})
       ELSE LET kink == {p \in Kinks(ev.lat) : Le(Mag(x -- p), N(ev.etol))}
                g == LatGreenN(ev.lat, IF kink = {} THEN e ELSE D ** ((CHOOSE p \in kink : TRUE) ++ N("1e-18")), D, s, ev.terms)
                exact == NegN(Im(g.g)) // PiN
                dtol == N(ev.ztol) ** Mag(Im(g.d)) ** (Mag(e) ++ D)
                tol == (N(ev.rtol) ** exact) ++ (IF kink = {} THEN dtol ELSE (N("1e-8") // D)) ++ (N(ev.ztol) // D)
            IN Fails({<<"dos", AClose(o, exact, tol)>>, <<"non-negative", ~Lt(o, NegN(N("1e-14") // D))>>})
C12Abs0(session) == <<>>
C12Step(st, ev) == [st |-> st, bad |-> LET F(r) == RowD(ev, r) IN JudgeRows(ev, F)]
=============================================================================
