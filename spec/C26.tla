-------------------------------- MODULE C26 ---------------------------------
(***************************************************************************)
(* Elementary models (semi-infinite chain, Hubbard dimer, Hubbard-I) and   *)
(* rational functions in zero-pole and polynomial-ratio form.              *)
(***************************************************************************)
EXTENDS Kit, Run

Objs == {"eval", "reciprocal", "ratpol", "invert", "scale", "wrap"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
C26Scenarios ==
       [op : {"surface"}, half : {"upper", "lower", "far", "near-axis"}, hop : {"pos", "neg"}, shape : {"none", "3", "2x3", "bcast"}, dtype : {"float", "int"}]
  \cup [op : {"dimer"}, kind : {"+", "-"}, half : {"upper", "lower", "axis"}, hop : {"pos", "neg", "small"}, u : {"pos", "neg", "zero", "large"}, shape : {"none", "3", "2x3", "bcast"}, dtype : {"float", "int"}]
  \cup [op : {"dimer-reject"}, kind : {"0", "++", "", "up", "1", "None", "+-"}]
  \cup [op : {"hubbard1"}, half : {"upper", "lower"}, u : {"pos", "neg", "zero"}, occ : {"0", "1", "mid"}, shape : {"none", "3", "2x3", "bcast"}, dtype : {"float", "int"}]
  \cup [op : {"rat"}, nz : 0..3, np : 0..3, dtype : {"real", "complex"}, amp : {"default", "real", "complex"}, z : {"scalar", "5", "2x2"}, batch : {"none"}, seq : {<<"eval", "ratpol", "reciprocal", "invert", "ratpol", "eval", "scale", "reciprocal", "wrap", "eval">>}]
  \cup [op : {"rat"}, nz : {2}, np : {3}, dtype : {"complex"}, amp : {"complex"}, z : {"5"}, batch : {"none"}, seq : SeqsUpTo(Objs, 3)]
  \cup [op : {"rat"}, nz : 0..2, np : {1, 3}, dtype : {"complex"}, amp : {"default", "complex"}, z : {"scalar", "5", "2x1"}, batch : {"2", "2x3"}, seq : {<<"eval", "reciprocal", "invert", "eval", "scale", "eval">>}]

(* surface of a semi-infinite chain: continued fraction G = 1/(z - eps - t^2 G) *)
SurfaceOk(z, e, t, g) ==
    LET x == z -- e  s == MaxN(Mag(g), N("1e-300"))
    IN Fails({<<"equation", Close(g ** (x -- (t ** t ** g)), 1, 0, N("1e-12") ** (One ++ (Mag(x) ** s) ++ (Sq(t) ** Sq(s))))>>,
              <<"branch", \/ Le(Mag(t ** g), One ++ N("1e-9"))>>,                                  \* the decaying solution
              <<"sign", Same(Im(x), 0) \/ Lt(Im(g) ** Im(x), 0)>>})

(* Hubbard dimer at half filling by exact diagonalisation *)
\* basis |20>, |02>, |ud>, |du>; ground state (a, a, b, b)
E0(t, u) == (u // 2) -- SqrtN(((u ** u) // 4) ++ (4 ** t ** t))
GroundA(t, u) == E0(t, u)
GroundB(t, u) == NegN(2 ** t)
Quad(v, M) == LET x == SolveN(M, v) IN SumN([i \in DOMAIN v |-> v[i] ** x[i]])   \* <v| M^-1 |v> for a real vector v
DimerGf(z, t, u, s) ==
    LET a == GroundA(t, u)  b == GroundB(t, u)  nn == 2 ** (Sq(a) ++ Sq(b))  e == E0(t, u)
        rem == <<a ++ (s ** b), b ++ (s ** a)>>          \* c_s |0> in the sector of one electron, times sqrt(2)
        add == <<b -- (s ** a), a -- (s ** b)>>          \* c_s^+ |0> in the sector of three electrons, times sqrt(2)
        M1 == <<<<z -- e, NegN(t)>>, <<NegN(t), z -- e>>>>                  \* z - E0 + H1,  H1 = -t sigma_x
        M3 == <<<<(z ++ e) -- u, t>>, <<t, (z ++ e) -- u>>>>                    \* z + E0 - H3,  H3 = U - t sigma_x
    IN (Quad(rem, M1) ++ Quad(add, M3)) // (2 ** nn)
RowDimer(ev, r) ==
    LET z == N(r.z)  t == N(r.t)  u == N(r.u)  s == N(ev.s)  w == DimerGf(z, t, u, s)
        amp == One // MaxN(N("1e-12"), Mag(Im(z)))
        scale == (One ++ Mag(u) ++ Mag(t)) ** Sq(amp)
    IN Fails({<<"exact", AClose(N(r.o), w, N("1e-14") ** (scale ++ Mag(w)))>>, <<"sign", Same(Im(z), 0) \/ Lt(Im(N(r.o)) ** Im(z), 0)>>})
(* atomic limit: 1/(z - Sigma) = (1-n)/z + n/(z-U) *)
RowHub(ev, r) ==
    LET z == N(r.z)  u == N(r.u)  n == N(r.n)  o == N(r.o)
        g == ((One -- n) // z) ++ (n // (z -- u))
        d == (z -- u) ++ (u ** n)
    IN Fails({<<"atomic", AClose(z -- o, One // g, N("1e-13") ** (Mag(z) ++ Mag(u) ++ Mag(o)) ** (One ++ ((Mag(z) ++ Mag(u)) // Mag(d))))>>})

C26SelfCheck(sc) ==
    CASE sc.op = "dimer" /\ sc.shape = "none" /\ sc.dtype = "float" ->
          LET t == CASE sc.hop = "pos" -> N("2/3") [] sc.hop = "neg" -> N("-5/4") [] OTHER -> N("1/50")
              u == CASE sc.u = "pos" -> N(2) [] sc.u = "neg" -> N("-3/2") [] sc.u = "zero" -> Zero [] OTHER -> N(40)
              a == GroundA(t, u)  b == GroundB(t, u)  e == E0(t, u)  s == IF sc.kind = "+" THEN One ELSE N(-1)
              z == Cplx("1e15", "1e15")
          IN Fails({<<"eigenvector", AClose((u ** a) -- (2 ** t ** b), e ** a, "1e-60") /\ AClose(NegN(2 ** t ** a), e ** b, "1e-60")>>,
                    <<"normalised", Close(z ** DimerGf(z, t, u, s), 1, "1e-12", 0)>>,
                    <<"free", sc.u = "zero" => LET x == N("1/3,1/2") IN Close(DimerGf(x, t, u, s), One // (x ++ (s ** t)), "1e-40", 0)>>})
      [] OTHER -> {}

(* a rational function: the state of a session is amplitude, zeros and poles per batch element *)
ProdDist(z, r) == ProdN([i \in DOMAIN r |-> z -- r[i]])
AbsProd(z, r) == ProdN([i \in DOMAIN r |-> Mag(z) ++ Mag(r[i])])
Cond(z, r) == AbsProd(z, r) // MaxN(Mag(ProdDist(z, r)), N("1e-200"))
Val(m, z) == (m.a ** ProdDist(z, m.z)) // ProdDist(z, m.p)
Load(r) == [a |-> N(r.a), z |-> Vec(r.zeros), p |-> Vec(r.poles)]
Judge(st, ev, Want(_, _), tol(_, _)) ==
    LET F(i) == LET r == ev.rows[i]  m == st[i]  z == Vec(r.x)  o == Vec(r.o)
                IN Fails({<<"value", Len(z) = Len(o) /\ \A k \in DOMAIN z : Close(o[k], Want(m, z[k]), tol(m, z[k]), 0)>>})
    IN IF ev.exc # "" THEN {"raised-" \o ev.exc} ELSE IF ~ev.sh THEN {"shape"} ELSE UNION {F(i) : i \in DOMAIN ev.rows}
RatStep(st, ev) ==
    LET Recip(m, z) == ProdDist(z, m.p) // (m.a ** ProdDist(z, m.z))
        Fine(m, z) == N("1e-13")
        Coarse(m, z) == N("1e-13") ** (Cond(z, m.z) ++ Cond(z, m.p))
    IN CASE ev.op = "new" -> [st |-> [i \in DOMAIN ev.rows |-> Load(ev.rows[i])], bad |-> IF ev.exc = "" THEN {} ELSE {"raised-" \o ev.exc}]
         [] ev.op = "eval" -> [st |-> st, bad |-> Judge(st, ev, Val, Fine)]
         [] ev.op = "reciprocal" -> [st |-> st, bad |-> Judge(st, ev, Recip, Fine)]
         [] ev.op = "ratpol" -> [st |-> st, bad |-> Judge(st, ev, Val, Coarse)]
         [] ev.op = "invert" -> [st |-> [i \in DOMAIN st |-> [a |-> One // st[i].a, z |-> st[i].p, p |-> st[i].z]], bad |-> {}]
         [] ev.op = "scale" -> [st |-> [i \in DOMAIN st |-> [st[i] EXCEPT !.a = 2 ** st[i].a]], bad |-> {}]
         [] ev.op = "wrap" -> [st |-> st, bad |-> {}]
C26Abs0(session) == <<>>
C26Step(st, ev) ==
    CASE ev.op = "surface" -> [st |-> st, bad |-> LET F(r) == SurfaceOk(N(r.z), N(r.e), N(r.t), N(r.o)) IN JudgeRows(ev, F)]
      [] ev.op = "dimer" -> [st |-> st, bad |-> LET F(r) == RowDimer(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "dimer-reject" -> [st |-> st, bad |-> RaisesOneOf(ev, {"ValueError"})]
      [] ev.op = "hubbard1" -> [st |-> st, bad |-> LET F(r) == RowHub(ev, r) IN JudgeRows(ev, F)]
      [] OTHER -> RatStep(st, ev)
=============================================================================
