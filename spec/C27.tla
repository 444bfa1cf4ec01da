-------------------------------- MODULE C27 ---------------------------------
(***************************************************************************)
(* One Green's function, many representations.  The abstract state is a    *)
(* pole model together with the representation the session is holding; the *)
(* library's functions are the edges between representations.  A scenario  *)
(* is a walk through that graph starting from the poles:                   *)
(*   P  poles and residues          H  Hamiltonian whose corner is the GF  *)
(*   Z  points in the upper half    S  impurity coupled to bath levels     *)
(*   W  Matsubara frequencies       M  high-frequency moments              *)
(*   I  Pade frequencies            T  imaginary times                     *)
(*   R  real times                  O  occupation                          *)
(*   Q  discrete Laplace transform of R (trapezoidal sum to infinity)      *)
(*   U  chemical potential that restores the occupation                    *)
(* Whatever the walk, the value it arrives at is the projection of the     *)
(* model it started from.                                                  *)
(***************************************************************************)
EXTENDS PoleModel, Run

Edges == [P |-> {"P>Z", "P>W", "P>I", "P>T", "P>R", "P>M", "P>O", "P>H"},
          Z |-> {"Z>P", "Z>W", "Z>Zp", "Z>Zc"},
          W |-> {"W>P", "W>T", "W>Tf", "W>Z", "W>Za", "W>Zc", "W>O", "W>Of"},
          I |-> {"I>P", "I>O", "I>Of", "I>Z"},
          T |-> {"T>P", "T>W", "T>Po"},
          R |-> {"R>R", "R>Q"},
          M |-> {"M>P", "M>Z", "M>Zr"},
          H |-> {"H>P", "H>Z", "H>S", "H>Zg", "H>Z2"},
          S |-> {"S>Z", "S>Zh", "S>R", "S>Rg", "S>H", "S>O"},
          O |-> {"O>U"}, Q |-> {}, U |-> {}]
Target(e) == CASE e \in {"P>Z", "Z>Zp", "Z>Zc", "W>Z", "W>Za", "W>Zc", "I>Z", "M>Z", "M>Zr", "H>Z", "H>Zg", "H>Z2", "S>Z", "S>Zh"} -> "Z"
               [] e \in {"Z>P", "W>P", "I>P", "T>P", "T>Po", "M>P", "H>P"} -> "P"
               [] e \in {"P>W", "Z>W", "T>W"} -> "W" [] e = "P>I" -> "I"
               [] e \in {"P>T", "W>T", "W>Tf"} -> "T" [] e \in {"P>R", "R>R", "S>R", "S>Rg"} -> "R"
               [] e = "P>M" -> "M" [] e \in {"P>H", "S>H"} -> "H" [] e = "H>S" -> "S"
               [] e \in {"P>O", "W>O", "W>Of", "I>O", "I>Of", "S>O"} -> "O" [] e = "R>Q" -> "Q" [] e = "O>U" -> "U"
Ends(w) == IF Len(w) = 0 THEN "P" ELSE Target(w[Len(w)])
RECURSIVE Walks(_)
Walks(k) == IF k = 0 THEN {<<>>}
            ELSE LET S == Walks(k - 1) IN UNION {IF Edges[Ends(w)] = {} \/ Len(w) < k - 1 THEN {w} ELSE {Append(w, e) : e \in Edges[Ends(w)]} : w \in S}
\* an exact pole model cannot be bettered by ever longer fits: at most two Pade-type steps in a row keep their digits
Fits(w) == Cardinality({i \in DOMAIN w : w[i] \in {"Z>W", "W>Z", "W>Za", "W>Zc", "I>Z", "M>Z", "M>Zr", "Z>Zp"}})
Ill == {"W>Z", "W>Za", "W>Zc", "I>Z"}      \* continuation from the imaginary axis loses digits exponentially
Needs2 == {"H>S", "S>Z", "S>Zh", "S>R", "S>Rg", "S>H", "S>O"}
C27Scenarios == {s \in [n : 1..4, batch : {"none", "2", "2x3"}, walk : Walks(IF IOEnv.VERIF_TIER = "thorough" THEN 5 ELSE 4)] :
                   Fits(s.walk) <= 2 /\ Cardinality({i \in DOMAIN s.walk : s.walk[i] \in Ill}) <= 1 /\ (s.n = 4 => \A i \in DOMAIN s.walk : s.walk[i] \notin Ill) /\ (s.n = 1 => \A i \in DOMAIN s.walk : s.walk[i] \notin Needs2) /\ (s.n # 2 => \A i \in DOMAIN s.walk : s.walk[i] # "H>Z2")}

(* projections of the model m = [p, w, beta] *)
CornerH(h, z) == InvN(Strict([i \in DOMAIN h |-> [j \in DOMAIN h |-> (IF i = j THEN z ELSE Zero) -- h[i][j]]]))[1][1]
CornerS(s, n, z) == One // ((z -- s[1]) -- SumN([i \in 1..(n - 1) |-> Sq(s[n + i]) // (z -- s[1 + i])]))
Probe == <<N("1/3,1/2"), N("-1,3/4"), N("0,2"), N("2,1/4")>>
\* trapezoidal rule on the infinite equidistant mesh: dt (sum_{k>=0} G(k dt) e^{i z k dt} - G(0)/2)
Discrete(m, z, dt) == NegN(IU) ** dt ** SumN([i \in DOMAIN m.p |-> m.w[i] ** ((One // (One -- ExpN(IU ** (z -- m.p[i]) ** dt))) -- Half)])

Worst(a, b) == MaxMag([i \in DOMAIN a |-> a[i] -- b[i]])
Near(o, v, t) == Len(o) = Len(v) /\ AllFin(o) /\ Le(Worst(o, v), t)
Project(rep, m, x) ==
    CASE rep \in {"Z", "W", "I"} -> [i \in DOMAIN x |-> GZ(x[i], m.p, m.w)]
      [] rep = "T" -> [i \in DOMAIN x |-> GTau(x[i], m.p, m.w, m.beta)]
      [] rep = "R" -> [i \in DOMAIN x |-> GRet(x[i], m.p, m.w)]
      [] rep = "M" -> [i \in DOMAIN x |-> Moment(m.p, m.w, i)]
      [] rep = "O" -> <<Occ(m.p, m.w, m.beta)>>
      [] rep = "U" -> <<Zero>>
      [] rep = "P" -> m.p \o m.w
Holds(rep, m, x, o, t) ==
    CASE rep = "H" -> LET h == [i \in DOMAIN m.p |-> SubSeq(o, 1 + ((i - 1) * Len(m.p)), i * Len(m.p))]
                      IN Len(o) = Len(m.p) * Len(m.p) /\ AllFin(o) /\ \A k \in DOMAIN Probe : AClose(CornerH(h, Probe[k]), GZ(Probe[k], m.p, m.w), t)
      [] rep = "S" -> Len(o) = (2 * Len(m.p)) - 1 /\ AllFin(o) /\ \A k \in DOMAIN Probe : AClose(CornerS(o, Len(m.p), Probe[k]), GZ(Probe[k], m.p, m.w), t)
      [] rep = "Q" -> Near(o, [i \in DOMAIN x |-> Discrete(m, x[i], m.dt)], t)
      [] OTHER -> Near(o, Project(rep, m, x), t)
\* loss of digits along one edge
Loss(e, n) == CASE e \in {"Z>P", "W>P", "I>P", "T>P", "T>Po", "M>P", "W>T", "W>Tf", "T>W", "W>O", "W>Of", "I>O", "I>Of", "O>U"} -> 40
                [] e \in Ill -> CASE n = 1 -> 100 [] n = 2 -> 10000 [] OTHER -> 20000000
                [] e \in {"Z>W", "M>Z", "M>Zr", "Z>Zp", "Z>Zc", "R>R", "R>Q"} -> IF n <= 2 THEN 100 ELSE 10000
                [] OTHER -> 4

C27SelfCheck(sc) ==
    IF sc.batch # "none" THEN {} ELSE
    LET n == sc.n  m == [p |-> Strict([i \in 1..n |-> SinN((PiN ** (2 * i - n - 1)) // (2 * n))]), w |-> Strict([i \in 1..n |-> N(i + 2) // 7]), beta |-> N(3)]
        mom == Strict([k \in 1..(2 * n) |-> Moment(m.p, m.w, k)])
    IN Fails({<<"connected", \A i \in DOMAIN sc.walk : sc.walk[i] \in Edges[Ends(SubSeq(sc.walk, 1, i - 1))]>>,
              <<"moments-fix-residues", Near(SolveN([k \in 1..n |-> [i \in 1..n |-> PowN(m.p[i], k - 1)]], SubSeq(mom, 1, n)), m.w, "1e-60")>>,
              <<"jump", AClose(GTau(Zero, m.p, m.w, m.beta) ++ GTau(m.beta, m.p, m.w, m.beta), NegN(mom[1]), "1e-60")>>,
              <<"occupation", AClose(GTau(m.beta, m.p, m.w, m.beta), NegN(Occ(m.p, m.w, m.beta)), "1e-60")>>,
              <<"moment-expansion", AClose(GZ(N("0,1e20"), m.p, m.w), SumN([k \in 1..(2 * n) |-> mom[k] // PowN(N("0,1e20"), k)]), "1e-60")>>,
              <<"discrete-limit", AClose(Discrete([m EXCEPT !.beta = N(1)], N("1/3,1/2"), N("1e-9")), GZ(N("1/3,1/2"), m.p, m.w), "1e-15")>>})

C27Abs0(session) == [m |-> <<>>, rep |-> "", val |-> <<>>, tol |-> N("1e-14")]
C27Step(st, ev) ==
    IF ev.op = "new" THEN
        [st |-> [m |-> Strict([i \in DOMAIN ev.rows |-> [p |-> Vec(ev.rows[i].p), w |-> Vec(ev.rows[i].w), beta |-> N(ev.beta), dt |-> N(ev.dt)]]),
                 rep |-> "P", val |-> [i \in DOMAIN ev.rows |-> ev.rows[i].o], tol |-> N("2e-14")], bad |-> {}]
    ELSE
    LET rep == Target(ev.op)
        n == Len(st.m[1].p)
        t == st.tol ** Loss(ev.op, n)
        x == Vec(ev.x)
        Ok(i) == Holds(rep, st.m[i], x, Vec(ev.rows[i].o), IF rep = "U" THEN (100 ** t) ++ N("1e-11") ELSE t)
    IN [st |-> [st EXCEPT !.rep = rep, !.val = [i \in DOMAIN ev.rows |-> ev.rows[i].o], !.tol = t],
        bad |-> IF ev.op \notin Edges[st.rep] THEN {"no-such-edge"} ELSE IF ev.exc # "" THEN {"raised-" \o ev.exc} ELSE IF ~ev.sh THEN {"shape"}
                ELSE Fails({<<"history", \A i \in DOMAIN ev.rows : ev.rows[i].i = st.val[i]>>, <<"same-green-function", \A i \in DOMAIN ev.rows : Ok(i)>>})]
=============================================================================
