-------------------------------- MODULE C25 ---------------------------------
(***************************************************************************)
(* Error contract: for every guarded entry point the set of allowed        *)
(* outcomes ("" is a normal return) as a function of the parameters which  *)
(* cross the boundary of the documented domain.                            *)
(***************************************************************************)
EXTENDS Kit, Run

Ok == {""}
Value == {"ValueError"}
\* guards which are plain assertions: any of the two is a rejection
Reject == {"AssertionError", "ValueError"}

LatticeNames == {"bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc", "lieb", "kagome"}
C25Scenarios ==
       [op : {"dimer-kind"}, kind : {"+", "-", "", "x", "++", "+-", "plus"}]
  \cup [op : {"tau-range"}, fn : {"pole_gf_tau", "pole_gf_tau_b", "PoleGf.eval_tau"}, at : {"zero", "inside", "beta", "below", "above", "slightly-above", "one-bad"}]
  \cup [op : {"bose-poles"}, poles : {"positive", "tiny", "zero", "negative", "one-negative", "one-zero", "complex-positive", "complex-negative"}]
  \cup [op : {"dos_moment"}, lat : LatticeNames, m : -3..45]
  \cup [op : {"companion"}, n : 0..4, lead : {"one", "zero", "small"}, batch : {"none", "vec"}]
  \cup [op : {"pcoeff_covar"}, n : 2..7, order : 1..9]
  \cup [op : {"predict"}, num : -4..4, stable : BOOLEAN]
  \cup [op : {"decompose"}, fn : {"sym", "her"}, asym : {"none", "tiny", "large", "one-of-batch", "imaginary"}, check : {"default", "true", "false"}]
  \cup {s \in [op : {"taylor"}, fn : {"pade", "pade-fast", "pade_lstsq", "pader"}, p : 0..4, q : 0..4, n : 1..10] : s.n + 2 >= s.p + s.q + 1 /\ s.n <= s.p + s.q + 3}
  \cup {s \in [op : {"taylor2"}, fn : {"hermite2", "hermite2_lstsq", "Hermite2.from_taylor", "Hermite2.from_taylor_lstsq"}, p : 0..3, q : 0..3, r : 0..3, n : 1..13] :
             s.n + 2 >= s.p + s.q + s.r + 2 /\ s.n <= s.p + s.q + s.r + 4}
  \cup [op : {"kind"}, cls : {"KindGf", "KindSelf"}, lo : -2..6, hi : -1..8]
  \cup [op : {"coefficients"}, nz : 1..5, nf : 1..5, batch : {"none", "vec"}]
  \cup [op : {"averager"}, cls : {"Averager", "Mod_Averager"}, valid : {"all", "one", "none", "int", "float", "object", "batch", "batch-one-none"}]
  \cup [op : {"nan-coeff"}, cls : {"Averager", "Mod_Averager"}, batch : {"none", "vec"}, nan : {"no", "all", "one", "late", "one-late"}]
  \cup [op : {"no-valid"}, threshold : {"inf", "-inf"}, fn : {"avg_no_neg_imag", "averaged", "two-filters"}]
  \cup [op : {"filter"}, cls : {"FilterNegImagNum", "FilterHighVariance"}, abs : {"none", "0", "1", "3", "-1"}, rel : {"none", "0.5", "0", "1", "1.5", "-0.1"}]
  \cup [op : {"coordination"}, fn : {"gf_z", "dos"}, z : {"-1", "0", "1", "2", "3"}]
  \cup [op : {"tt2z"}, fn : {"tt2z", "tt2z-trapz", "tt2z-simps", "tt2z-pade"}, t : {"pos", "neg", "mixed"}, z : {"up", "down", "axis", "mixed"}]
  \cup [op : {"equidistant"}, fn : {"tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"}, grid : {"equidistant", "one-off", "quadratic"}, quad : {"default", "trapz", "simps", "simpson", ""}]
  \cup {s \in [op : {"over-constrained"}, fn : {"gf_from_z", "gf_from_tau", "PoleFct.from_z", "PoleGf.from_tau", "residues_ols"}, poles : 1..4, moments : 0..6, occ : {"no", "yes"}] :
             s.occ = "yes" => s.fn \in {"gf_from_tau", "PoleGf.from_tau"}}
  \cup [op : {"n_poles0"}, n0 : 1..12, nz : {12, 13}, degree : -1..0]
  \cup [op : {"continuation-degree"}, degree : -2..3]
  \cup [op : {"not-converged"}, fn : {"cpa.solve_root", "cpa.solve_root-free", "cpa.solve_fxdocc_root", "beb.solve_root"}, maxiter : {"1", "none"}]
  \cup [op : {"no-bracket"}, f : {"always-positive", "always-negative", "root", "zero-at-start"}]
  \cup [op : {"density-total"}, ndim : 1..3]
  \cup [op : {"frequency-index"}, fn : {"matsubara_frequencies", "matsubara_frequencies_b"}, dtype : {"int", "int-scalar", "int32", "uint8", "range", "float", "float-scalar", "complex", "string"}]
  \cup [op : {"fix_qr"}, fix : -7..8]
  \cup [op : {"orth_compl"}, n : 1..4, m : 1..5]

\* size of the smallest admissible pole number etc. are spelled out here, not read off the code
Outcome(s) ==
    CASE s.op = "dimer-kind" -> IF s.kind \in {"+", "-"} THEN Ok ELSE Value
      [] s.op = "tau-range" -> IF s.at \in {"zero", "inside", "beta"} THEN Ok ELSE Reject
      [] s.op = "bose-poles" -> IF s.poles \in {"positive", "tiny", "complex-positive"} THEN Ok ELSE Value
      \* only tabulated moments are implemented; small positive ones always are
      [] s.op = "dos_moment" -> IF s.m \in 1..6 THEN Ok
                                ELSE IF s.m <= 0 \/ s.m > 40 THEN {"NotImplementedError"} \cup (IF s.m = 0 \/ s.m % 2 = 1 THEN Ok ELSE {})
                                ELSE {"", "NotImplementedError"}
      [] s.op = "companion" -> IF s.n < 2 \/ s.lead = "zero" THEN Value ELSE Ok
      [] s.op = "pcoeff_covar" -> IF s.order >= s.n THEN Value ELSE Ok
      [] s.op = "predict" -> IF s.num < 0 THEN Value ELSE Ok
      [] s.op = "decompose" -> IF s.check = "false" \/ s.asym \in {"none", "tiny"} THEN Ok ELSE Value
      [] s.op = "taylor" -> IF s.n < s.p + s.q + 1 THEN Value ELSE Ok
      [] s.op = "taylor2" -> IF s.n < s.p + s.q + s.r + 2 THEN Value ELSE Ok
      [] s.op = "kind" -> LET odd == s.lo % 2 = 1
                              lo == IF s.cls = "KindGf" THEN (IF odd THEN s.lo ELSE s.lo + 1) ELSE (IF odd THEN s.lo + 1 ELSE s.lo)
                          IN IF lo < 1 \/ s.hi <= lo THEN Value ELSE IF s.lo < 1 THEN {"", "ValueError"} ELSE Ok
      [] s.op = "coefficients" -> IF s.nz # s.nf THEN Value ELSE Ok
      [] s.op = "averager" -> CASE s.valid \in {"int", "float", "object"} -> {"TypeError"}
                                [] s.valid \in {"none", "batch-one-none"} -> {"RuntimeError"}
                                [] OTHER -> Ok
      [] s.op = "nan-coeff" -> IF s.nan # "no" THEN {"RuntimeError"} ELSE Ok
      [] s.op = "no-valid" -> IF s.threshold = "-inf" THEN {"RuntimeError"} ELSE Ok
      [] s.op = "filter" -> IF (s.abs = "none") = (s.rel = "none") THEN Reject
                            ELSE IF s.cls = "FilterNegImagNum" THEN (IF s.abs \in {"none", "1", "3"} /\ s.rel \in {"none", "0.5"} THEN Ok ELSE {"", "AssertionError", "ValueError"})
                            ELSE IF s.abs \in {"1", "3"} \/ s.rel = "0.5" THEN Ok ELSE Reject
      [] s.op = "coordination" -> IF s.z \in {"2", "3"} THEN Ok ELSE Reject
      [] s.op = "tt2z" -> IF (s.t = "pos" /\ s.z \in {"up", "axis"}) \/ (s.t = "neg" /\ s.z \in {"down", "axis"})
                          THEN (IF s.fn = "tt2z-pade" /\ s.t = "neg" THEN {"", "AssertionError"} ELSE Ok) ELSE Value
      [] s.op = "equidistant" -> IF s.grid # "equidistant" THEN Value
                                 ELSE IF s.fn = "tt2z_lin" \/ s.quad \in {"default", "trapz", "simps"} THEN Ok ELSE Value
      [] s.op = "over-constrained" -> IF s.moments + (IF s.occ = "yes" THEN 1 ELSE 0) > s.poles THEN Value ELSE Ok
      \* 2*poles + degree + 1 unknowns at least one point each
      [] s.op = "n_poles0" -> IF 2 * s.n0 + s.degree >= s.nz THEN Value ELSE Ok
      [] s.op = "continuation-degree" -> IF s.degree > 0 THEN Value ELSE Ok
      [] s.op = "not-converged" -> IF s.maxiter = "1" THEN {"RuntimeError"} ELSE Ok
      [] s.op = "no-bracket" -> IF s.f \in {"always-positive", "always-negative"} THEN {"RuntimeError"} ELSE Ok
      [] s.op = "density-total" -> IF s.ndim = 1 THEN Ok ELSE Reject
      [] s.op = "frequency-index" -> IF s.dtype \in {"int", "int-scalar", "int32", "uint8", "range"} THEN Ok ELSE {"TypeError", "ValueError"}
      \* seven coefficients: q of degree 3 and r of degree 2
      [] s.op = "fix_qr" -> IF s.fix >= 7 THEN Value ELSE Ok
      [] s.op = "orth_compl" -> IF s.m >= s.n THEN Value ELSE Ok

\* every scenario has an outcome, and every guard is exercised from both sides
C25SelfCheck(sc) ==
    LET same == {s \in C25Scenarios : s.op = sc.op} IN
    Fails({<<"has-outcome", Outcome(sc) # {}>>})
    \cup IF sc.op # "dimer-kind" THEN {} ELSE
         Fails({<<"both-sides", \A op \in {s.op : s \in C25Scenarios} :
                   (\E s \in C25Scenarios : s.op = op /\ Outcome(s) = Ok) /\ (\E s \in C25Scenarios : s.op = op /\ "" \notin Outcome(s))>>})

C25Abs0(session) == session.sc
C25Step(st, ev) ==
    [st |-> st, bad |->
        Fails({<<(IF ev.exc = "" THEN "not-rejected" ELSE "raised-" \o ev.exc), ev.exc \in Outcome(st)>>,
               <<"not-finite", ev.exc # "" \/ "" \notin Outcome(st) \/ ev.finite>>})]
=============================================================================
