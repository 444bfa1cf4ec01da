-------------------------------- MODULE C19 ---------------------------------
(***************************************************************************)
(* Thiele-Pade continuation: coefficients, the iterator over the           *)
(* convergents, kind selectors, filters and averages.                      *)
(***************************************************************************)
EXTENDS Thiele, Run

Filters == {"none", "neg", "neg-loose", "neg-strict", "neg-inf", "num", "num-rel", "var", "var-rel", "neg+var", "num+neg", "var+num+neg"}
C19Scenarios ==
       [op : {"coefficients", "masked"}, n : {1, 2, 3, 5, 8, 12}, dtype : {"complex128", "complex256", "real"}, mesh : {"matsubara", "upper", "real"}, shape : {"none", "3", "2x2"}]
  \cup [op : {"coefficients"}, n : {30, 48}, dtype : {"complex128", "complex256"}, mesh : {"matsubara", "upper"}, shape : {"none"}]
  \cup [op : {"kind"}, kind : {"gf", "self"}, nmin : -1..8, nmax : -1..12]
  \cup [op : {"iterate"}, n : {1, 2, 3, 6, 9}, shape : {"none", "3", "2x2"}, out : {"scalar", "5", "2x3", "nodes"}, seq : {<<"A">>, <<"A", "B", "A", "A", "B", "B">>, <<"A", "A", "B", "A">>}]
  \cup [op : {"iterate"}, n : {20, 34}, shape : {"none"}, out : {"5", "nodes"}, seq : {<<"A">>}]
  \cup [op : {"filter"}, filter : Filters \ {"none"}, shape : {"none", "3", "2x2"}, np : {1, 3, 6}, data : {"random", "cluster", "negative", "positive", "faint", "touching"}]
  \cup [op : {"averaged"}, filter : Filters, shape : {"none", "3", "2x2"}, kind : {"gf", "self"}, range : {"1-6", "2-7", "3-10", "4-9", "1-20", "5-6", "6-8"}, source : {"fct", "coeff"}, valid : {"none", "given", "many"}, api : {"averaged"}]
  \cup [op : {"averaged"}, filter : {"neg", "neg-loose", "neg-inf"}, shape : {"none", "3"}, kind : {"gf", "self"}, range : {"1-6", "2-7", "3-10", "1-20"}, source : {"fct", "coeff"}, valid : {"none", "given"}, api : {"avg_no_neg_imag"}]
  \cup [op : {"averaged"}, filter : {"none", "neg", "mask", "mask-flat"}, shape : {"none", "3", "2x2"}, kind : {"gf", "self"}, range : {"1-6", "2-7", "3-10", "1-20"}, source : {"coeff"}, valid : {"none"},
        api : {"Averager", "Mod-vec", "Mod-loop", "Mod-real"}]
  \cup [op : {"averaged"}, filter : {"none", "neg", "num", "neg+var"}, shape : {"none"}, kind : {"gf", "self"}, range : {"18-34", "4-38"}, source : {"fct", "coeff"}, valid : {"none", "given"}, api : {"averaged"}]
  \cup [op : {"reject"}, what : {"shape", "valid-type", "valid-none", "valid-none-batch", "nan", "mod-valid-type", "mod-valid-none", "mod-nan"}]

Cval(i) == Cplx(N((i * i * 7 + 3) % 13) // 5, NegN(N((i * 11 + 1) % 7) // 4) -- N("1/3"))
C19SelfCheck(sc) ==
    CASE sc.op = "coefficients" ->
          IF sc.shape # "none" \/ sc.dtype # "complex128" \/ sc.mesh # "upper" THEN {} ELSE
          LET z == Strict([i \in 1..sc.n |-> Cplx(N(i) // 3, N(2 * i - 1))])  f == Strict([i \in 1..sc.n |-> Cval(i)])
              a == Strict(ThieleCoeffs(z, f))
          IN Fails({<<"interpolates", \A m \in 1..sc.n : \A j \in 1..m : Close(Convergent(a, z, z[j], m), f[j], "1e-50", 0)>>})
      [] sc.op = "kind" -> \* the right tail behaviour: 1/x for the Green's function, constant for the self-energy
          IF KindRejects(sc.kind, sc.nmin, sc.nmax) THEN {} ELSE
          LET z == Strict([i \in 1..12 |-> Cplx(Zero, N(2 * i - 1))])  a == Strict([i \in 1..12 |-> Cval(i)])
              big == N("1e30")
              Deg(n) == Convergent(a, z, big ** 2, n) // Convergent(a, z, big, n)
          IN Fails({<<"tail", \A n \in KindNumbers(sc.kind, sc.nmin, sc.nmax, 12) : Close(Deg(n), IF sc.kind = "gf" THEN Half ELSE One, "1e-20", 0)>>})
      [] OTHER -> {}

\* sensitivity of the coefficients to a relative change eps of the data
Perturb(f, s, eps) == Strict([i \in DOMAIN f |-> f[i] ** (One ++ (eps ** N(IF (i \div s) % 2 = 0 THEN 1 ELSE -1)))])
RowCoeff(ev, r) ==
    LET z == Vec(ev.z)  f == Vec(r.f)  o == Vec(r.o)
        a == Strict(ThieleCoeffs(z, f))
        eps == N(ev.eps)
        b == Strict([s \in 1..3 |-> ThieleCoeffs(z, Perturb(f, s, eps))])
        Amp(i) == MaxN(Mag(a[i] -- b[1][i]), MaxN(Mag(a[i] -- b[2][i]), Mag(a[i] -- b[3][i])))
        \* rounding in a step is amplified by the later steps: the worst relative sensitivity so far
        worst == Strict([i \in DOMAIN a |-> MaxMag([j \in 1..i |-> Amp(j) // Mag(a[j])])])
        \* calculated in extended precision, returned in the precision of the input
        tol(i) == (3 ** eps ** Mag(a[i])) ++ (N(30) ** Mag(a[i]) ** worst[i])
    IN Fails({<<"coefficients", Len(o) = Len(a) /\ \A i \in DOMAIN a : AClose(o[i], a[i], tol(i))>>})
EvKind(ev) ==
    IF KindRejects(ev.kind, ev.nmin, ev.nmax) THEN RaisesOneOf(ev, {"ValueError"})
    ELSE IF ev.exc # "" THEN {"raised-" \o ev.exc}
    ELSE LET want == SortedSeq(KindNumbers(ev.kind, ev.nmin, ev.nmax, 40))
             Same1(q) == Len(q) = Len(want) /\ \A i \in DOMAIN q : q[i] + 2 = want[i]
         IN Fails({<<"islice", Same1(ev.islice)>>, <<"slice", Same1(ev.slice)>>, <<"getitem", Same1(ev.items)>>, <<"len", ev.len = Len(want)>>,
                   <<"getitem-negative", Same1(ev.back)>>, <<"getitem-slice", Len(want) > 0 => (Len(ev.rest) = Len(want) - 1 /\ \A i \in DOMAIN ev.rest : ev.rest[i] + 2 = want[i + 1])>>})
RowNext(ev, r, n) ==
    LET z == Vec(ev.z)  a == Vec(r.a)  x == Vec(ev.x)  o == Vec(r.o)
        big == MaxMag([k \in DOMAIN x |-> Convergent(a, z, x[k], n)])
    IN Fails({<<"convergent", Len(o) = Len(x) /\ \A k \in DOMAIN x : AClose(o[k], Convergent(a, z, x[k], n), N("1e-9") ** (One ++ big))>>,
              <<"not-overwritten", r.o = r.later>>})

KeepOne(name, P, I, num, rel) ==
    LET cnt == Cardinality(I)  k == IF name \in {"num-rel", "var-rel"} THEN (cnt * rel) \div 100 ELSE num
    IN CASE name = "neg" -> KeepNegImag(P, I, "1e-8")
         [] name = "neg-loose" -> KeepNegImag(P, I, "0.25")
         [] name = "neg-strict" -> KeepNegImag(P, I, "-0.1")
         [] name = "neg-inf" -> I
         [] name \in {"num", "num-rel"} -> KeepNum(P, I, k)
         [] name \in {"var", "var-rel"} -> KeepVariance(P, I, k)
RECURSIVE KeepSeq(_, _, _, _, _, _)
KeepSeq(fs, i, P, I, num, rel) == IF i > Len(fs) \/ I = {} THEN I ELSE KeepSeq(fs, i + 1, P, KeepOne(fs[i], P, I, num, rel), num, rel)
RECURSIVE Ambig(_, _, _, _, _, _)
Ambig(fs, i, P, I, num, rel) ==
    IF i > Len(fs) \/ I = {} THEN FALSE
    ELSE LET k == IF fs[i] = "var-rel" THEN (Cardinality(I) * rel) \div 100 ELSE num
         IN (fs[i] \in {"var", "var-rel"} /\ (k = 0 \/ VarianceAmbiguous(P, I, k)))
            \/ (fs[i] = "num-rel" /\ (Cardinality(I) * rel) \div 100 = 0)
            \/ Ambig(fs, i + 1, P, KeepOne(fs[i], P, I, num, rel), num, rel)
EvFilter(ev) == \* rows: one per batch element, p: the approximants, o: the mask
    LET Kept(i) == LET P == Mat(ev.rows[i].p) IN KeepSeq(ev.fs, 1, P, DOMAIN P, ev.num, ev.rel)
        Skip(i) == LET P == Mat(ev.rows[i].p) IN Ambig(ev.fs, 1, P, DOMAIN P, ev.num, ev.rel)
        empty == Len(ev.fs) > 1 /\ \E i \in DOMAIN ev.rows0 : LET P == Mat(ev.rows0[i].p) IN KeepSeq(ev.fs, 1, P, DOMAIN P, ev.num, ev.rel) = {}
        anyskip == \E i \in DOMAIN ev.rows0 : LET P == Mat(ev.rows0[i].p) IN Ambig(ev.fs, 1, P, DOMAIN P, ev.num, ev.rel)
    IN IF anyskip /\ ev.exc = "RuntimeError" THEN {}
       ELSE IF empty /\ ~anyskip THEN RaisesOneOf(ev, {"RuntimeError"})
       ELSE IF ev.exc # "" THEN {"raised-" \o ev.exc}
       ELSE IF ~ev.sh THEN {"shape"}
       ELSE Fails({<<"kept", \A i \in DOMAIN ev.rows : Skip(i) \/ {k \in DOMAIN ev.rows[i].o : N(ev.rows[i].o[k]) = One} = Kept(i)>>,
                   <<"kept-number", \A i \in DOMAIN ev.rows : (ev.fs[1] = "var" /\ Len(ev.fs) = 1) =>
                        Cardinality({k \in DOMAIN ev.rows[i].o : N(ev.rows[i].o[k]) = One}) = MinI(ev.num, Len(ev.rows[i].o))>>})

Std(v) == LET n == Len(v)  m == SumN(v) // n IN SqrtN(SumN([i \in DOMAIN v |-> Sq(v[i] -- m)]) // (n - 1))
Mod(ev, x, v) == CASE ev.api \in {"Mod-vec", "Mod-loop"} -> (v ** 2) ++ (x ** N("1/4"))
                   [] ev.api = "Mod-real" -> NegN(Im(v))
                   [] OTHER -> v
Numbers(ev) == SortedSeq(KindNumbers(ev.kind, ev.nmin, ev.nmax, Len(ev.z)))
ValidOf(ev, r) == \* kept approximants (indices into Numbers) of one batch element
    LET ns == Numbers(ev)  z == Vec(ev.z)  a == Vec(r.a)  y == Vec(ev.y)
        P == Strict([i \in DOMAIN ns |-> [k \in DOMAIN y |-> Convergent(a, z, y[k], ns[i])]])
    IN IF ev.filter \in {"mask", "mask-flat"} THEN {i \in DOMAIN ns : N(r.mask[i]) = One}
       ELSE IF ev.fs = <<>> THEN DOMAIN ns
       ELSE KeepSeq(ev.fs, 1, P, DOMAIN ns, ev.num, ev.rel)
Unclear(ev, r) ==  \* validity decided by rounding or by the order of equally bad approximants
    LET ns == Numbers(ev)  z == Vec(ev.z)  a == Vec(r.a)  y == Vec(ev.y)
        P == Strict([i \in DOMAIN ns |-> [k \in DOMAIN y |-> Convergent(a, z, y[k], ns[i])]])
    IN ev.fs # <<>> /\ (Ambig(ev.fs, 1, P, DOMAIN ns, ev.num, ev.rel)
       \/ \E i \in DOMAIN P : \E k \in DOMAIN y : \E t \in {"1e-8", "0.25", "-0.1", "0"} : AClose(Im(P[i][k]), N(t), N("1e-8") ** (N("1e-3") ++ Mag(P[i][k]))))
RowAvg(ev, r) ==
    LET ns == Numbers(ev)  z == Vec(ev.z)  a == Vec(r.a)  x == Vec(ev.x)  V == ValidOf(ev, r)  q == SortedSeq(V)
        o == Vec(r.o)  e == Vec(r.err)
        Vals(k) == Strict([i \in DOMAIN q |-> Mod(ev, x[k], Convergent(a, z, x[k], ns[q[i]]))])
        Judge(k) == LET v == Vals(k)  s == N("1e-8") ** (One ++ MaxMag(v))  n == Len(v)
                        re == Strict([i \in DOMAIN v |-> Re(v[i])])  im == Strict([i \in DOMAIN v |-> Im(v[i])])
                    IN Fails({<<"mean", AClose(o[k], SumN(v) // n, s)>>,
                              <<"deviation", IF n = 1 THEN IsNaN(e[k]) ELSE AClose(e[k], IF ev.api = "Mod-real" THEN Std(re) ELSE Cplx(Std(re), Std(im)), SqrtN(s ** MaxMag(v)) ** N("1e-3") ++ s)>>})
    IN UNION {Judge(k) : k \in DOMAIN x}
EvAvg(ev) ==
    LET unclear == \E i \in DOMAIN ev.rows0 : Unclear(ev, ev.rows0[i])
        none == \E i \in DOMAIN ev.rows0 : ValidOf(ev, ev.rows0[i]) = {}
    IN IF KindRejects(ev.kind, ev.nmin, ev.nmax) THEN RaisesOneOf(ev, {"ValueError"})
       ELSE IF unclear THEN {}
       ELSE IF none THEN RaisesOneOf(ev, {"RuntimeError"})
       ELSE LET F(r) == RowAvg(ev, r) IN JudgeRows(ev, F)

C19Abs0(session) == [A |-> 1, B |-> 1]
C19Step(st, ev) ==
    CASE ev.op \in {"coefficients", "masked"} -> [st |-> st, bad |-> LET F(r) == RowCoeff(ev, r) IN JudgeRows(ev, F)]
      [] ev.op = "kind" -> [st |-> st, bad |-> EvKind(ev)]
      [] ev.op = "next" -> \* the k-th element is the convergent with k+1 coefficients; exhausted after all coefficients
            IF st[ev.it] >= Len(ev.z) THEN [st |-> st, bad |-> RaisesOneOf(ev, {"StopIteration"})]
            ELSE LET n == st[ev.it] + 1  F(r) == RowNext(ev, r, n) IN [st |-> [st EXCEPT ![ev.it] = n], bad |-> JudgeRows(ev, F)]
      [] ev.op = "filter" -> [st |-> st, bad |-> EvFilter(ev)]
      [] ev.op = "averaged" -> [st |-> st, bad |-> EvAvg(ev)]
      [] ev.op = "reject" -> [st |-> st, bad |-> RaisesOneOf(ev, {ev.want})]
=============================================================================
