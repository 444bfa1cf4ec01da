-------------------------------- MODULE C23 ---------------------------------
(***************************************************************************)
(* Batched evaluation: the result of a call with arguments of batch shapes *)
(* b1, b2 ... has batch shape Broadcast(b1, b2 ...), and its element with  *)
(* index idx is what the call returns for the single elements              *)
(* Project(idx, b1), Project(idx, b2) ... of the arguments, whatever the   *)
(* memory layout of the arguments.                                         *)
(***************************************************************************)
EXTENDS Kit, Run, Catalog

Mems == {"c", "f", "rev", "step", "ro", "list", "corerev"}
C23Scenarios ==
    {[fn |-> f, kind |-> k, mem |-> m, args |-> Catalog[f].args, outs |-> Catalog[f].outs, shapes |-> Shapes(k, Len(Catalog[f].args))] :
       <<f, k, m>> \in {t \in (DOMAIN Catalog) \X BatchKinds \X Mems :
          /\ t[3] # "c" => t[2] \in {"vec", "mat"}
          /\ t[3] \in {"rev", "step", "list"} => t[2] = "vec"
          /\ t[3] \in {"f", "ro", "corerev"} => t[2] = "mat"
          /\ Len(Catalog[t[1]].args) = 1 => t[2] \notin {"first", "last", "outer", "inner", "lead"}
          /\ t[1] \in Heavy => t[2] \in {"one", "vec", "mat", "outer", "first", "last"}
          /\ t[1] \in NoEmpty => t[2] \notin {"empty", "empty2"}
          /\ t[1] \in FirstIsBatch => t[2] \notin {"outer", "inner", "lead", "last"} }}

\* broadcasting is well defined and every element of the result gets exactly one element of each argument
C23SelfCheck(sc) ==
    LET b == Broadcast(sc.shapes) IN
    Fails({<<"compatible", Compatible(sc.shapes)>>,
           <<"every-element-once", Cardinality({Unravel(b, k) : k \in 1..Size(b)}) = Size(b)>>,
           <<"in-range", \A k \in 1..Size(b) : \A j \in DOMAIN sc.shapes : \A i \in DOMAIN sc.shapes[j] :
                 LET p == Project(Unravel(b, k), sc.shapes[j])[i] IN p >= 0 /\ p < sc.shapes[j][i]>>})

SameValue(a, b, tol) == \/ Same(a, b) \/ (IsNaN(a) /\ IsNaN(b)) \/ AClose(a, b, tol)
SameVec(u, v, rtol) ==
    LET fin == SelectSeq(v, LAMBDA x : IsFin(x))
        tol == (N(rtol) ** MaxMag(fin)) ++ Tiny
    IN Len(u) = Len(v) /\ \A i \in DOMAIN u : SameValue(u[i], v[i], tol)
Row(ev, k) ==
    LET b == Broadcast(ev.shapes)  idx == Unravel(b, k)  r == ev.rows[k]
    IN Fails({<<"element-index", \A j \in DOMAIN ev.shapes : r.idx[j] = Project(idx, ev.shapes[j])>>})
       \cup UNION {Fails({<<"element-value-" \o ToString(n), SameVec(Vec(r.o[n]), Vec(r.e[n]), ev.rtol)>>}) : n \in DOMAIN ev.outs}
C23Abs0(session) == 0
C23Step(st, ev) ==
    [st |-> st, bad |->
      IF ev.exc # "" THEN {"raised-" \o ev.exc}
      ELSE IF ev.eexc # "" THEN {"element-raised-" \o ev.eexc}
      ELSE Fails({<<"number-of-results", Len(ev.got) = Len(ev.outs)>>,
                  <<"shape", Len(ev.got) = Len(ev.outs) => \A n \in DOMAIN ev.outs : ev.got[n] = Broadcast(ev.shapes) \o ev.outs[n]>>,
                  <<"number-of-elements", Len(ev.rows) = Size(Broadcast(ev.shapes))>>})
           \cup (IF Len(ev.got) = Len(ev.outs) /\ Len(ev.rows) = Size(Broadcast(ev.shapes)) THEN UNION {Row(ev, k) : k \in DOMAIN ev.rows} ELSE {})]
=============================================================================
