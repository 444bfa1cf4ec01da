------------------------------- MODULE Walks --------------------------------
(***************************************************************************)
(* Design model: the walks themselves.  A site is <<type, x, y, z>>;       *)
(* cnt[t][s] counts the walks of length n from the origin of type t to s.  *)
(* Invariant: the average number of closed walks is Lattice!Walk.          *)
(***************************************************************************)
EXTENDS Lattice, Integers
CONSTANT MaxLen
VARIABLES lat, n, cnt
\* neighbours as <<type, dx, dy, dz>>
Signs == {-1, 1}
Nb(l, t) ==
    CASE l = "onedim" -> {<<1, s, 0, 0>> : s \in Signs}
      [] l = "square" -> {<<1, s, 0, 0>> : s \in Signs} \cup {<<1, 0, s, 0>> : s \in Signs}
      [] l = "sc" -> {<<1, s, 0, 0>> : s \in Signs} \cup {<<1, 0, s, 0>> : s \in Signs} \cup {<<1, 0, 0, s>> : s \in Signs}
      [] l = "bcc" -> {<<1, a, b, c>> : a \in Signs, b \in Signs, c \in Signs}
      [] l = "fcc" -> {<<1, a, b, 0>> : a \in Signs, b \in Signs} \cup {<<1, a, 0, b>> : a \in Signs, b \in Signs} \cup {<<1, 0, a, b>> : a \in Signs, b \in Signs}
      [] l = "triangular" -> {<<1, 1, 0, 0>>, <<1, -1, 0, 0>>, <<1, 0, 1, 0>>, <<1, 0, -1, 0>>, <<1, 1, -1, 0>>, <<1, -1, 1, 0>>}
      [] l = "honeycomb" -> IF t = 1 THEN {<<2, 0, 0, 0>>, <<2, -1, 0, 0>>, <<2, 0, -1, 0>>} ELSE {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 0, 1, 0>>}
      [] l = "kagome" -> (CASE t = 1 -> {<<2, 0, 0, 0>>, <<2, -1, 0, 0>>, <<3, 0, 0, 0>>, <<3, 0, -1, 0>>}
                           [] t = 2 -> {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<3, 0, 0, 0>>, <<3, 1, -1, 0>>}
                           [] t = 3 -> {<<1, 0, 0, 0>>, <<1, 0, 1, 0>>, <<2, 0, 0, 0>>, <<2, -1, 1, 0>>})
      [] l = "lieb" -> (CASE t = 1 -> {<<2, 0, 0, 0>>, <<2, -1, 0, 0>>, <<3, 0, 0, 0>>, <<3, 0, -1, 0>>}
                         [] t = 2 -> {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>}
                         [] t = 3 -> {<<1, 0, 0, 0>>, <<1, 0, 1, 0>>})
      [] l = "bethe" -> {<<1, 1, 0, 0>>, <<1, -1, 0, 0>>}      \* Dyck paths: the half line x >= 0
Types(l) == CASE l = "honeycomb" -> 2 [] l \in {"kagome", "lieb"} -> 3 [] OTHER -> 1
Start(t) == <<t, 0, 0, 0>>
Move(s, d) == <<d[1], s[2] + d[2], s[3] + d[3], s[4] + d[4]>>
Reach(l, S) == {x \in UNION {{Move(s, d) : d \in Nb(l, s[1])} : s \in S} : l # "bethe" \/ x[2] >= 0}
RECURSIVE SumOver(_, _, _)
SumOver(S, f, acc) == IF S = {} THEN acc ELSE LET s == CHOOSE s \in S : TRUE IN SumOver(S \ {s}, f, acc ++ f[s])
\* predecessors of x: neighbours, the adjacency is symmetric
StepCnt(l, f) == [x \in Reach(l, DOMAIN f) |-> SumOver({p \in {Move(x, d) : d \in Nb(l, x[1])} : p \in DOMAIN f}, f, Zero)]

Init == /\ lat \in Lattices \ {"box"} /\ n = 0
        /\ cnt = [t \in 1..Types(lat) |-> [s \in {Start(t)} |-> One]]
Next == /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED lat
        /\ cnt' = [t \in DOMAIN cnt |-> StepCnt(lat, cnt[t])]
Closed == SumN([t \in 1..Types(lat) |-> IF Start(t) \in DOMAIN cnt[t] THEN cnt[t][Start(t)] ELSE Zero]) // Types(lat)
WalksCounted == Same(Closed ** Types(lat), Walk(lat, n) ** Types(lat)) \/ Close(Closed, Walk(lat, n), "1e-80", 0)
Symmetric == \A t \in DOMAIN cnt : \A s \in DOMAIN cnt[t] : \A d \in Nb(lat, s[1]) :
                 (lat # "bethe") => <<s[1], s[2], s[3], s[4]>> \in {Move(Move(s, d), e) : e \in Nb(lat, d[1])}
=============================================================================
