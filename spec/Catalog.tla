------------------------------ MODULE Catalog -------------------------------
(***************************************************************************)
(* The vectorised public functions with their signatures: the core shape   *)
(* of every array argument and of every result.  All remaining axes are    *)
(* batch axes, which broadcast.  Parameters which are documented as plain  *)
(* numbers (inverse temperature, half-bandwidth, orders ...) are fixed.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

S == <<>>
V(n) == <<n>>
M(n, m) == <<n, m>>
Sig(args, outs) == [args |-> args, outs |-> outs]
Lattices == {"bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc", "lieb", "kagome"}
Elementwise ==
    {l \o ".gf_z" : l \in Lattices} \cup {l \o ".hilbert_transform" : l \in Lattices} \cup {l \o ".dos" : l \in Lattices} \cup
    {"box.gf_z", "box.dos", "rectangular.gf_z", "rectangular.hilbert_transform", "rectangular.dos", "bethez.gf_z", "bethez.dos",
     "bethe.gf_d1_z", "bethe.gf_d2_z", "bethe.gf_z_inv", "bethe.gf_ret_t", "box.gf_ret_t", "square.stress_trafo",
     "fermi_fct", "fermi_fct-complex", "fermi_fct_d1", "fermi_fct_inv", "bose_fct", "matsubara_frequencies", "matsubara_frequencies_b",
     "hubbard_dimer_gf_z", "hubbard_dimer_gf_z-", "RatPol.eval", "Hermite2.eval"}
PoleSums == {"pole_gf_z", "pole_gf_d1_z", "pole_gf_ret_t", "pole_gf_tau", "pole_gf_tau_b", "PoleFct.eval_z", "PoleGf.eval_tau", "PoleGf.eval_ret_t"}
IwToTau == {"iw2tau_dft", "iw2tau_dft_soft"}
TauToIv == {"tau2iv_dft", "tau2iv_ft_lin", "tau2iv"}
TauToIw == {"tau2iw_dft", "tau2iw_ft_lin", "tau2iw", "tau2iw-poles"}
Laplace == {"tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"}
SiamTimes == {"siam.gf0_loc_ret_t", "siam.gf0_loc_gr_t", "siam.gf0_loc_le_t"}

\* functions whose elements are solved for simultaneously: results agree within the tolerance of the solver only
Heavy == {"cpa.solve_root", "beb.solve_root"}
\* functions without a claim for empty batches (numexpr, numpy.vectorize and scipy.linalg.companion do not support them)
NoEmpty == Laplace \cup {"density_error", "density_error-clean", "density_error2", "companion", "predict", "predict-stable", "pcoeff_covar", "pcoeff_burg"}
\* the first argument carries the complete batch
FirstIsBatch == {"predict", "predict-stable"}

Catalog == [f \in Elementwise |-> Sig(<<S>>, <<S>>)]
       @@ [f \in PoleSums |-> Sig(<<S, V(3), V(3)>>, <<S>>)]
       @@ [f \in IwToTau |-> Sig(<<V(6)>>, <<V(13)>>)]
       @@ [f \in TauToIv |-> Sig(<<V(9)>>, <<V(5)>>)]
       @@ [f \in TauToIw |-> Sig(<<V(9)>>, <<V(4)>>)]
       @@ [f \in Laplace |-> Sig(<<V(21), V(4)>>, <<V(4)>>)]
       @@ [f \in SiamTimes |-> Sig(<<S, S, V(3), V(3)>>, <<S>>)]
       @@ ("pole_gf_moments" :> Sig(<<V(3), V(3), V(4)>>, <<V(4)>>))
       @@ ("PoleFct.moments" :> Sig(<<V(3), V(3), V(4)>>, <<V(4)>>))
       @@ ("PoleGf.occ" :> Sig(<<V(3), V(3)>>, <<S>>))
       @@ ("ZeroPole.eval" :> Sig(<<S, V(2), V(3), S>>, <<S>>))
       @@ ("ZeroPole.reciprocal" :> Sig(<<S, V(2), V(3), S>>, <<S>>))
       @@ ("PadeApprox.eval_polefct" :> Sig(<<S, V(3), V(3), V(3), S>>, <<S>>))
       @@ ("PadeApprox.eval_zeropole" :> Sig(<<S, V(2), V(3), V(3), S>>, <<S>>))
       @@ ("surface_gf_zeps" :> Sig(<<S, S>>, <<S>>))
       @@ ("hubbard_I_self_z" :> Sig(<<S, S, S>>, <<S>>))
       @@ ("density_iw" :> Sig(<<V(8), V(8), V(8), V(2)>>, <<S>>))
       @@ ("density_iw-fit" :> Sig(<<V(8), V(8), V(8), V(2)>>, <<S>>))
       @@ [f \in {"density_error", "density_error-clean", "density_error2"} |-> Sig(<<V(8)>>, <<S>>)]
       @@ [f \in {"gf_from_moments", "gf_from_moments-auto"} |-> Sig(<<V(3)>>, <<V(3), V(3)>>)]
       @@ ("gf_from_moments-width" :> Sig(<<V(3), S>>, <<V(3), V(3)>>))
       @@ ("gf_from_z" :> Sig(<<V(8), V(8)>>, <<V(4)>>))
       @@ ("gf_from_z-moments" :> Sig(<<V(8), V(8), V(2), V(8)>>, <<V(4)>>))
       @@ ("gf_from_tau" :> Sig(<<V(9)>>, <<V(4)>>))
       @@ ("gf_from_tau-moments" :> Sig(<<V(9), V(2)>>, <<V(4)>>))
       @@ [f \in {"iw2tau", "iw2tau-fit"} |-> Sig(<<V(6), V(2)>>, <<V(13)>>)]
       @@ ("tau2iw-moments" :> Sig(<<V(9), V(2)>>, <<V(4)>>))
       @@ [f \in {"decompose_mat", "decompose_sym"} |-> Sig(<<M(3, 3)>>, <<V(3), M(3, 3)>>)]
       @@ ("decompose_her" :> Sig(<<M(3, 3)>>, <<V(3), V(3), M(3, 3), V(3)>>))
       @@ ("Decomposition.from_gf" :> Sig(<<M(3, 3)>>, <<M(3, 3), V(3)>>))
       @@ ("Decomposition.from_hamiltonian" :> Sig(<<M(3, 3)>>, <<V(3), M(3, 3)>>))
       @@ [f \in {"gf_2x2_z", "gf_2x2_z-hilbert"} |-> Sig(<<S, S, S, S>>, <<V(2)>>)]
       @@ ("siam.gf0_loc_z" :> Sig(<<S, S, V(3), V(3)>>, <<S>>))
       @@ ("siam.hybrid_z" :> Sig(<<S, V(3), V(3)>>, <<S>>))
       @@ ("siam.hamiltonian_matrix" :> Sig(<<S, V(3), V(3)>>, <<M(4, 4)>>))
       @@ ("cpa.gf_cmpt_z" :> Sig(<<S, S, V(3)>>, <<V(3)>>))
       @@ [f \in {"cpa.self_root_eq", "cpa.self_fxdpnt_eq"} |-> Sig(<<S, S, V(3), V(3)>>, <<S>>)]
       @@ ("cpa.solve_root" :> Sig(<<S, V(3), V(3)>>, <<S>>))
       @@ ("beb.gf_loc_z" :> Sig(<<S, M(2, 2)>>, <<V(2)>>))
       @@ ("beb.gf_loc_z-full" :> Sig(<<S, M(2, 2)>>, <<M(2, 2)>>))
       @@ ("beb.self_root_eq" :> Sig(<<M(2, 2), S, V(2), V(2)>>, <<M(2, 2)>>))
       @@ ("beb.solve_root" :> Sig(<<S, V(2), V(2)>>, <<M(2, 2)>>))
       @@ ("companion" :> Sig(<<V(4)>>, <<M(3, 3)>>))
       @@ [f \in {"pcoeff_covar", "pcoeff_burg"} |-> Sig(<<V(24)>>, <<V(4), S>>)]
       @@ [f \in {"predict", "predict-stable"} |-> Sig(<<V(12), V(4)>>, <<V(17)>>)]
       @@ ("pade.coefficients" :> Sig(<<V(8)>>, <<V(8)>>))
       @@ ("pade.calc_iterator" :> Sig(<<V(8)>>, <<M(3, 7)>>))
       @@ ("pade.averaged" :> Sig(<<V(8)>>, <<V(2), V(2)>>))
       @@ ("orth_compl" :> Sig(<<M(4, 2)>>, <<M(4, 4)>>))

(***************************************************************************)
(* Further public functions, with the shapes of their array arguments;     *)
(* their results are not described by a fixed shape.                       *)
(***************************************************************************)
OneNumber == {l \o ".dos_mp" : l \in Lattices} \cup {l \o ".dos_moment" : l \in Lattices} \cup
             {"box.dos_moment", "sc.gf_z_mp", "pade_frequencies", "chemical_potential", "mp-context", "zany-conj"}
Further == [f \in OneNumber |-> <<S>>]
       @@ [f \in {"hermpade.pade", "hermpade.pade-fast", "hermpade.pade_lstsq", "hermpade.pader", "hermpade.hermite2", "hermpade.hermite2_lstsq"} |-> <<V(9)>>]
       @@ ("continuation" :> <<V(24), V(24)>>)
       @@ ("continuation-moments" :> <<V(24), V(24), V(1), V(24)>>)
       @@ ("polepade.poles" :> <<V(24), V(24), V(24)>>)
       @@ ("polepade.zeros" :> <<V(24), V(24), V(2), V(24)>>)
       @@ ("polepade.asymptotic" :> <<V(24), V(24), V(1), V(2), V(24)>>)
       @@ ("polepade.residues_ols" :> <<V(24), V(24), V(3), V(24), V(1)>>)
       @@ ("polepade.number_poles" :> <<V(24), V(24), V(24)>>)
       @@ ("izp2tau" :> <<V(8), V(8), V(5), V(1)>>)
       @@ ("tau2izp" :> <<V(9), V(5), V(1), V(9)>>)
       @@ ("density" :> <<M(2, 8), V(2)>>)
       @@ ("density-matrix" :> <<M(2, 8), M(2, 2)>>)
       @@ ("check_convergence" :> <<M(2, 8), V(2)>>)
       @@ ("lstsq_ec" :> <<M(6, 4), V(6), M(2, 4), V(2)>>)
       @@ ("Hermite2.from_taylor" :> <<V(9), V(3)>>)
       @@ [f \in {"avg_no_neg_imag", "averaged-variance", "averaged-coeff"} |-> <<V(3), V(8), V(8)>>]
       @@ ("Mod_Averager" :> <<V(8), V(8), V(3)>>)
       @@ ("apply_filter" :> <<M(5, 3)>>)
       @@ ("cpa.solve_root-start" :> <<V(3), V(2), V(2), V(3)>>)
       @@ ("cpa.solve_fxdocc_root" :> <<V(8), V(2), V(2)>>)
       @@ ("cpa.solve_fxdocc_root-start" :> <<V(8), V(2), V(2), V(8)>>)
       @@ ("beb.solve_root-start" :> <<V(2), V(2), V(2), M(2, 2), <<2, 2, 2>>>>)
       @@ ("SpecDec.truncate" :> <<M(3, 3)>>)
       @@ ("SpecDec.partition" :> <<M(3, 3), V(3), M(3, 3)>>)
       @@ ("Decomposition.reconstruct" :> <<M(3, 3), V(3), M(3, 3), V(3)>>)
       @@ ("construct_gf" :> <<M(3, 3), V(3), M(3, 3)>>)
       @@ ("ZeroPole.to_ratpol" :> <<V(2), V(3)>>)
       @@ ("PoleGf.from_tau" :> <<V(9), V(1), V(9)>>)
       @@ ("PoleFct.from_z" :> <<V(8), V(8), V(2), V(8)>>)
       @@ ("tt2z-backend" :> <<V(21), V(4)>>)
       \* a scale of exactly one: steps may be skipped, results may share memory with the arguments
       @@ [f \in {"unit-tt2z" \o s \o q : s \in {"_", "-"}, q \in {"trapz", "simps", "lin", "pade", "herm2", "lpz"}} |-> <<V(20), V(20), V(4)>>]
       @@ [f \in {"unit-" \o l \o q : l \in Lattices, q \in {".gf_z", ".dos"}} |-> <<V(4)>>]
       @@ [f \in {"unit-" \o q : q \in {"fermi_fct", "fermi_fct_d1", "bose_fct", "fermi_fct_inv", "matsubara_frequencies", "matsubara_frequencies_b"}} |-> <<V(4)>>]
       @@ [f \in {"unit-gf_tau", "unit-pole_gf_tau_b"} |-> <<V(4), V(3), V(3)>>]
       @@ [f \in {"unit-gf_z", "unit-gf_d1_z"} |-> <<V(4), V(3)>>]
       @@ ("unit-moments" :> <<V(3), V(3)>>)
       @@ ("unit-iw2tau" :> <<V(8), V(2)>>)
       @@ [f \in {"unit-iw2tau_dft", "unit-iw2tau_dft_soft"} |-> <<V(8)>>]
       @@ [f \in {"unit-" \o q : q \in {"tau2iv_dft", "tau2iv_ft_lin", "tau2iv", "tau2iw_dft", "tau2iw_ft_lin", "tau2iw"}} |-> <<V(9)>>]
       @@ ("unit-density_iw" :> <<V(8), V(8), V(2)>>)
       @@ [f \in {"unit-predict", "unit-predict-stable"} |-> <<V(12), V(4)>>]
       @@ ("unit-companion" :> <<V(4)>>)
       @@ ("unit-ratpol" :> <<V(2), V(3)>>)
       @@ ("unit-restrict" :> <<V(4), V(4), M(4, 2), V(2)>>)
       @@ ("unit-real-density" :> <<M(2, 8), V(2)>>)
Solvers == Heavy \cup {"cpa.solve_root-start", "cpa.solve_fxdocc_root", "cpa.solve_fxdocc_root-start", "beb.solve_root-start"}
ArgShapes(f) == IF f \in DOMAIN Catalog THEN Catalog[f].args ELSE Further[f]
Functions == DOMAIN Catalog \cup DOMAIN Further

(***************************************************************************)
(* Broadcasting: shapes are aligned at the last axis, axes of length one   *)
(* are repeated.                                                           *)
(***************************************************************************)
Pad(sh, n) == [i \in 1..n |-> IF i <= n - Len(sh) THEN 1 ELSE sh[i - (n - Len(sh))]]
RECURSIVE MaxLen(_, _, _)
MaxLen(shapes, i, acc) == IF i > Len(shapes) THEN acc ELSE MaxLen(shapes, i + 1, IF Len(shapes[i]) > acc THEN Len(shapes[i]) ELSE acc)
BroadcastAxis(ls) == IF \E l \in ls : l # 1 THEN CHOOSE l \in ls : l # 1 ELSE 1
Compatible(shapes) == LET n == MaxLen(shapes, 1, 0) IN \A i \in 1..n : Cardinality({Pad(shapes[j], n)[i] : j \in DOMAIN shapes} \ {1}) <= 1
Broadcast(shapes) == LET n == MaxLen(shapes, 1, 0) IN [i \in 1..n |-> BroadcastAxis({Pad(shapes[j], n)[i] : j \in DOMAIN shapes})]
RECURSIVE SizeAcc(_, _, _)
SizeAcc(sh, i, acc) == IF i > Len(sh) THEN acc ELSE SizeAcc(sh, i + 1, acc * sh[i])
Size(sh) == SizeAcc(sh, 1, 1)
\* multi-index (counted from zero) of the k-th element (counted from one) in C order
RECURSIVE Stride(_, _)
Stride(sh, i) == IF i = Len(sh) THEN 1 ELSE sh[i + 1] * Stride(sh, i + 1)
Unravel(sh, k) == [i \in DOMAIN sh |-> ((k - 1) \div Stride(sh, i)) % sh[i]]
\* the element of an argument with batch shape `from' that contributes to element `idx' of the result
Project(idx, from) == [i \in DOMAIN from |-> IF from[i] = 1 THEN 0 ELSE idx[i + Len(idx) - Len(from)]]

BatchKinds == {"one", "vec", "mat", "cube", "first", "last", "outer", "inner", "lead", "single", "empty", "empty2", "long"}
ShapeOf(kind, i, n) ==
    CASE kind = "one" -> <<>>
      [] kind = "vec" -> <<3>>
      [] kind = "mat" -> <<2, 3>>
      [] kind = "cube" -> <<2, 1, 2>>
      [] kind = "first" -> IF i = 1 THEN <<3>> ELSE <<>>
      [] kind = "last" -> IF i = n THEN <<3>> ELSE <<>>
      [] kind = "outer" -> IF i = 1 THEN <<2, 1>> ELSE <<3>>
      [] kind = "inner" -> IF i = 1 THEN <<3>> ELSE <<2, 1>>
      [] kind = "lead" -> IF i = 1 THEN <<1, 3>> ELSE IF i % 2 = 0 THEN <<2, 3>> ELSE <<3>>
      [] kind = "single" -> <<1>>
      [] kind = "empty" -> <<0>>
      [] kind = "empty2" -> IF i = 1 THEN <<2, 0>> ELSE <<>>
      [] kind = "long" -> <<19>>
Shapes(kind, n) == [i \in 1..n |-> ShapeOf(kind, i, n)]
=============================================================================
