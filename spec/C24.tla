-------------------------------- MODULE C24 ---------------------------------
(***************************************************************************)
(* Histories of calls.  The abstract state is what a caller can rely on:   *)
(*   mem   contents of the caller's arrays (digest per array)              *)
(*   seen  the result of the first call for every function and contents    *)
(*         of the arguments                                                *)
(*   env   process-wide settings (floating point errors, warning filters,  *)
(*         precision of mpmath, random state ...)                          *)
(* A call changes neither mem nor env, and returns seen[key] if the same   *)
(* function was called with the same contents before, whatever happened in *)
(* between, whoever reads the log, and also if several threads call at    *)
(* once (a call from each of them is one event).  Only the caller writes:  *)
(* "write" overwrites the caller's arrays or a result handed out.          *)
(***************************************************************************)
EXTENDS Kit, Run, Catalog

Acts == {"same", "other-args", "other-function", "error", "clobber-result", "read-only", "fresh-copy", "list", "wide", "narrow", "strided", "logging", "threads"}
Tier == IF "VERIF_TIER" \in DOMAIN IOEnv THEN IOEnv.VERIF_TIER ELSE "quick"
Histories == IF Tier = "thorough" THEN Acts \X Acts
             ELSE {<<"same", "clobber-result">>, <<"other-function", "error">>, <<"read-only", "other-args">>, <<"error", "fresh-copy">>,
                   <<"clobber-result", "list">>, <<"other-args", "other-function">>, <<"list", "same">>, <<"fresh-copy", "read-only">>,
                   <<"other-function", "other-function">>, <<"other-args", "clobber-result">>, <<"wide", "strided">>, <<"narrow", "wide">>, <<"logging", "threads">>}
C24Scenarios ==
    {[kind |-> "history", fn |-> f, acts |-> h, args |-> ArgShapes(f)] : <<f, h>> \in
        {t \in Functions \X Histories : t[1] \in Solvers => t[2] \in {<<"same", "clobber-result">>, <<"read-only", "other-args">>, <<"error", "fresh-copy">>, <<"strided", "wide">>, <<"logging", "threads">>}}}

(***************************************************************************)
(* Step relation.                                                          *)
(***************************************************************************)
SameValue(a, b, tol) == \/ Same(a, b) \/ (IsNaN(a) /\ IsNaN(b)) \/ AClose(a, b, tol)
SameVec(u, v, rtol) ==
    LET fin == SelectSeq(v, LAMBDA x : IsFin(x))
        tol == (N(rtol) ** MaxMag(fin)) ++ Tiny
    IN Len(u) = Len(v) /\ \A i \in DOMAIN u : SameValue(u[i], v[i], tol)
SameResult(a, b, rtol) == Len(a) = Len(b) /\ \A n \in DOMAIN a : SameVec(Vec(a[n]), Vec(b[n]), rtol)
Digest(st, id) == IF id \in DOMAIN st.mem THEN st.mem[id] ELSE "unknown"
Call(st, ev) ==
    LET key == ev.key IN
    [st |-> [st EXCEPT !.mem = [i \in {ev.ids[k] : k \in DOMAIN ev.ids} |-> LET k == CHOOSE k \in DOMAIN ev.ids : ev.ids[k] = i IN ev.after[k]] @@ @,
                       !.seen = IF ev.exc = "" /\ key \notin DOMAIN @ THEN (key :> ev.out) @@ @ ELSE @,
                       !.env = ev.env],
     bad |-> Fails({<<"contents-of-arguments", \A k \in DOMAIN ev.ids : Digest(st, ev.ids[k]) \in {"unknown", ev.before[k]}>>,
                    <<"argument-modified", ev.after = ev.before>>,
                    <<"settings-changed", ev.env = st.env>>,
                    <<"raised-" \o ev.exc, ev.mayfail \/ ev.exc = "">>,
                    <<"result-depends-on-history", ev.exc # "" \/ key \notin DOMAIN st.seen \/ SameResult(ev.out, st.seen[key], ev.rtol)>>})]
C24Abs0(session) == [mem |-> "none" :> "none", seen |-> "none" :> <<>>, env |-> session.env]
C24Step(st, ev) ==
    CASE ev.act = "call" -> Call(st, ev)
      \* the caller overwrites arrays: nothing the library owns may be affected
      [] ev.act = "write" -> [st |-> [st EXCEPT !.mem = [i \in {ev.ids[k] : k \in DOMAIN ev.ids} |-> LET k == CHOOSE k \in DOMAIN ev.ids : ev.ids[k] = i IN ev.after[k]] @@ @], bad |-> {}]

(***************************************************************************)
(* The specification accepts a pure implementation and rejects impure ones *)
(* on every history that reaches the impurity.                             *)
(***************************************************************************)
Ev(fnkey, ids, before, after, env, out) == [act |-> "call", key |-> fnkey, ids |-> ids, before |-> before, after |-> after, env |-> env, out |-> out, exc |-> "", mayfail |-> FALSE, rtol |-> "1e-10"]
RECURSIVE Play(_, _, _, _)
Play(st, evs, i, bad) == IF i > Len(evs) THEN bad ELSE LET r == Call(st, evs[i]) IN Play(r.st, evs, i + 1, bad \cup r.bad)
Start == [mem |-> "none" :> "none", seen |-> "none" :> <<>>, env |-> "e"]
Pure == <<Ev("f", <<"a">>, <<"1">>, <<"1">>, "e", << <<"2">> >>), Ev("g", <<"b">>, <<"5">>, <<"5">>, "e", << <<"3">> >>), Ev("f", <<"a">>, <<"1">>, <<"1">>, "e", << <<"2">> >>)>>
InPlace == <<Ev("f", <<"a">>, <<"1">>, <<"9">>, "e", << <<"2">> >>)>>
Late == <<Ev("f", <<"a">>, <<"1">>, <<"1">>, "e", << <<"2">> >>), Ev("f", <<"a">>, <<"7">>, <<"7">>, "e", << <<"2">> >>)>>
Cached == <<Ev("f", <<"a">>, <<"1">>, <<"1">>, "e", << <<"2">> >>), Ev("f", <<"c">>, <<"1">>, <<"1">>, "e", << <<"4">> >>)>>
Settings == <<Ev("f", <<"a">>, <<"1">>, <<"1">>, "e2", << <<"2">> >>)>>
C24SelfCheck(sc) ==
    IF sc.fn # "fermi_fct" THEN {} ELSE
    Fails({<<"accepts-pure", Play(Start, Pure, 1, {}) = {}>>,
           <<"rejects-in-place", Play(Start, InPlace, 1, {}) # {}>>,
           <<"rejects-late-write", Play(Start, Late, 1, {}) # {}>>,
           <<"rejects-state", Play(Start, Cached, 1, {}) # {}>>,
           <<"rejects-settings", Play(Start, Settings, 1, {}) # {}>>})
=============================================================================
