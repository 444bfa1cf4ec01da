-------------------------------- MODULE C01 ---------------------------------
(* Pole Green's functions are the exact sums over their poles. *)
EXTENDS PoleModel, Run

FreqOps == {"gf_z", "gf_d1_z", "PoleFct.eval_z"}
TauOps == {"gf_tau", "PoleGf.eval_tau"}
TimeOps == {"gf_ret_t", "PoleGf.eval_ret_t"}
MomOps == {"moments", "PoleFct.moments"}
Shapes == {"scalar", "vec", "outer", "batch", "onepole", "scalarweight", "empty", "grid"}
PoleKinds == {"regular", "zero", "wide", "cluster", "int", "negative", "large"}
ArgKinds == {"inner", "edge", "extreme"}

C01Scenarios ==
       [op : FreqOps, shape : Shapes, poles : PoleKinds \cup {"complex"}, arg : {"upper", "lower", "real"}]
  \cup [op : TauOps, shape : Shapes, poles : PoleKinds, arg : ArgKinds]
  \cup [op : {"gf_tau_b"}, shape : Shapes, poles : {"positive", "posint", "wide+"}, arg : ArgKinds]
  \cup [op : TimeOps, shape : Shapes, poles : PoleKinds \cup {"complex"}, arg : {"inner", "edge", "negative"}]
  \cup [op : MomOps, shape : {"scalar", "vec", "batch", "onepole", "scalarweight"}, poles : PoleKinds \cup {"complex"}, arg : {"low", "high"}]
  \cup [op : {"PoleGf.occ"}, shape : {"scalar", "batch", "scalarweight", "many"}, poles : PoleKinds, arg : ArgKinds]
  \cup [op : {"PoleGf.occ"}, shape : {"batch", "outer"}, poles : PoleKinds, arg : {"betas"}]
  \cup [op : FreqOps, shape : {"many"}, poles : PoleKinds \cup {"complex"}, arg : {"upper", "lower", "far"}]
  \cup [op : FreqOps, shape : {"vec", "batch"}, poles : PoleKinds \cup {"complex"}, arg : {"far", "upper"}, w : {"complex"}]
  \cup [op : TauOps, shape : {"vec", "batch", "many"}, poles : PoleKinds, arg : ArgKinds, w : {"complex"}]
  \cup [op : {"gf_tau_b"}, shape : {"vec", "batch", "many"}, poles : {"positive", "wide+", "complex+"}, arg : ArgKinds, w : {"complex"}]
  \cup [op : {"gf_tau_b"}, shape : Shapes, poles : {"complex+"}, arg : ArgKinds]
  \cup [op : TimeOps, shape : {"vec", "batch", "many"}, poles : PoleKinds \cup {"complex"}, arg : {"inner", "negative", "long"}, w : {"complex"}]
  \cup [op : MomOps, shape : {"vec", "batch", "many"}, poles : PoleKinds \cup {"complex"}, arg : {"low", "high", "huge"}, w : {"complex"}]

(* Theorems of the model itself, checked on an exact instance per scenario. *)
ModelPoles(kind) == CASE kind = "zero" -> <<N(0), N("1/2")>>
                      [] kind \in {"wide", "wide+", "large"} -> <<N(300), N("1/7")>>
                      [] kind = "negative" -> <<N(-2), N("-1/3")>>
                      [] OTHER -> <<N("-1/3"), N("5/4")>>
C01SelfCheck(sc) ==
    LET p == ModelPoles(sc.poles)
        w == <<N("1/4"), N("3/4")>>
        z == N("1/3,2/7")
        h == N("1e-20")
        b == N(5)
    IN Fails({
        <<"derivative", Close((GZ(z ++ h, p, w) -- GZ(z -- h, p, w)) // (2 ** h), GD1(z, p, w), "1e-30", 0)>>,
        <<"tail", Close(GZ(N("1e30"), p, w), Moment(p, w, 1) // N("1e30"), "1e-25", 0)>>,
        <<"jump", Close(GTau(0, p, w, b) ++ GTau(b, p, w, b), NegN(Moment(p, w, 1)), "1e-60", 0)>>,
        <<"occ", Close(NegN(GTau(b, p, w, b)), Occ(p, w, b), "1e-60", 0)>>,
        <<"ret0", Close(GRet(0, p, w), NegN(IU) ** Moment(p, w, 1), "1e-60", 0)>> })

Tol == "1e-11"
Row(op, r) ==
    LET p == Vec(r.p)  w == Vec(r.w)  o == N(r.o)
        Value(name, v, m) == Fails({<<name, Close(o, v, 0, (Tol ** m) ++ Tiny)>>})
    IN CASE op \in {"gf_z", "PoleFct.eval_z"} -> Value("value", GZ(r.x, p, w), MagZ(r.x, p, w))
         [] op = "gf_d1_z" -> Value("derivative", GD1(r.x, p, w), MagD1(r.x, p, w))
         [] op \in TauOps -> Value("tau", GTau(r.x, p, w, r.beta), MagTau(r.x, p, w, r.beta))
         [] op = "gf_tau_b" -> Value("tau_b", GTauB(r.x, p, w, r.beta), MagTauB(r.x, p, w, r.beta))
         [] op \in TimeOps -> Value("ret_t", GRet(r.x, p, w), MagRet(r.x, p, w) ** (One ++ Mag(MaxMag(p) ** r.x)))
         [] op \in MomOps -> Value("moment", Moment(p, w, FloorN(r.x)), MagMoment(p, w, FloorN(r.x)))
         [] op = "PoleGf.occ" -> Value("occ", Occ(p, w, r.beta), SumMag(w))

C01Abs0(session) == <<>>
C01Step(st, ev) == [st |-> st, bad |-> LET F(r) == Row(ev.op, r) IN JudgeRows(ev, F)]
=============================================================================
