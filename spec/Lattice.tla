------------------------------ MODULE Lattice -------------------------------
(***************************************************************************)
(* The lattices as counts of closed walks.                                 *)
(* Walk(lat, m): closed nearest-neighbour walks of length m, averaged over *)
(* the sites of the unit cell; HalfWidth(lat): half the band width in      *)
(* units of the hopping.  The moment of order m of the density of states   *)
(* for half-bandwidth D is Walk(lat, m) (D/HalfWidth)^m.                   *)
(* Walks.tla checks these counts against the walks themselves.             *)
(***************************************************************************)
EXTENDS Kit

Bipartite == {"onedim", "square", "sc", "bcc", "honeycomb", "lieb", "bethe", "box"}
NonBipartite == {"triangular", "fcc", "kagome"}
Lattices == Bipartite \cup NonBipartite
MaxOrder == 64

RECURSIVE PascalAcc(_, _)
PascalAcc(n, rows) ==   \* rows: sequences of rows 0..n-1
    IF n > MaxOrder THEN rows
    ELSE LET p == rows[n] IN
         PascalAcc(n + 1, Append(rows, [k \in 1..(n + 1) |-> IF k = 1 \/ k = n + 1 THEN One ELSE p[k - 1] ++ p[k]]))
Pascal == PascalAcc(1, <<<<One>>>>)
Binom(n, k) == IF k < 0 \/ k > n THEN Zero ELSE Pascal[n + 1][k + 1]
Central(k) == Binom(2 * k, k)

Table(n, F(_)) == [i \in 1..(n + 1) |-> F(i - 1)]
H == MaxOrder \div 2
\* closed walks of length 2k, tabulated (constant definitions are evaluated once)
HoneyTab == LET F(k) == SumN([j \in 1..(k + 1) |-> Sq(Binom(k, j - 1)) ** Central(j - 1)]) IN Table(H, F)
DiamondTab == LET F(k) == SumN([j \in 1..(k + 1) |-> Sq(Binom(k, j - 1)) ** Central(j - 1) ** Central(k - j + 1)]) IN Table(H, F)
ScTab == LET F(k) == Central(k) ** SumN([j \in 1..(k + 1) |-> Sq(Binom(k, j - 1)) ** Central(j - 1)]) IN Table(H, F)
SquareW(m) == IF m % 2 = 1 THEN Zero ELSE Sq(Central(m \div 2))
HoneyW(m) == IF m % 2 = 1 THEN Zero ELSE HoneyTab[m \div 2 + 1]
\* spectra derived from other lattices
TriW(m) == SumN([j \in 1..(m + 1) |-> Binom(m, j - 1) ** PowN(N(-3), m - j + 1) ** HoneyTab[j]])       \* triangular = honeycomb^2 - 3
FccW(m) == SumN([j \in 1..(m + 1) |-> Binom(m, j - 1) ** PowN(N(-4), m - j + 1) ** DiamondTab[j]])     \* fcc = diamond^2 - 4
KagomeW(m) == (PowN(N(-2), m) ++ (2 ** SumN([j \in 1..(m + 1) |-> Binom(m, j - 1) ** HoneyW(j - 1)]))) // 3   \* line graph of the honeycomb lattice
LiebW(m) == IF m % 2 = 1 THEN Zero ELSE IF m = 0 THEN One ELSE
            (2 // N(3)) ** SumN([j \in 1..(m \div 2 + 1) |-> Binom(m \div 2, j - 1) ** PowN(N(4), m \div 2 - j + 1) ** SquareW(j - 1)])
Walk(lat, m) ==
    CASE lat = "onedim" -> IF m % 2 = 1 THEN Zero ELSE Central(m \div 2)
      [] lat = "square" -> SquareW(m)
      [] lat = "sc" -> IF m % 2 = 1 THEN Zero ELSE ScTab[m \div 2 + 1]
      [] lat = "bcc" -> IF m % 2 = 1 THEN Zero ELSE PowN(Central(m \div 2), 3)
      [] lat = "honeycomb" -> HoneyW(m)
      [] lat = "triangular" -> TriW(m)
      [] lat = "fcc" -> FccW(m)
      [] lat = "kagome" -> KagomeW(m)
      [] lat = "lieb" -> LiebW(m)
      [] lat = "bethe" -> IF m % 2 = 1 THEN Zero ELSE Central(m \div 2) // (m \div 2 + 1)
WalkOrder(lat) == IF lat \in {"triangular", "fcc"} THEN H ELSE IF lat = "lieb" THEN MaxOrder ELSE MaxOrder
HalfWidth(lat) ==
    CASE lat = "onedim" -> N(2) [] lat = "square" -> N(4) [] lat = "sc" -> N(6) [] lat = "bcc" -> N(8)
      [] lat = "honeycomb" -> N(3) [] lat = "triangular" -> N("9/2") [] lat = "fcc" -> N(8) [] lat = "kagome" -> N(3)
      [] lat = "lieb" -> SqrtN(8) [] lat = "bethe" -> N(2)
\* moments for half-bandwidth one
LatMoment(lat, m) == IF lat = "box" THEN (IF m % 2 = 1 THEN Zero ELSE One // (m + 1)) ELSE Walk(lat, m) // PowN(HalfWidth(lat), m)
\* band of the lattice for half-bandwidth one
BandLo(lat) == CASE lat = "triangular" -> N("-2/3") [] lat = "fcc" -> N("-1/2") [] lat = "kagome" -> N("-2/3") [] OTHER -> N(-1)
BandHi(lat) == CASE lat = "triangular" -> N("4/3") [] lat = "fcc" -> N("3/2") [] lat = "kagome" -> N("4/3") [] OTHER -> N(1)
\* weight and position of a flat band
FlatWeight(lat) == IF lat \in {"kagome", "lieb"} THEN One // 3 ELSE Zero
FlatPos(lat) == IF lat = "kagome" THEN N("-2/3") ELSE Zero
=============================================================================
