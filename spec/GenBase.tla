------------------------------ MODULE GenBase -------------------------------
(***************************************************************************)
(* Deterministic generation of shapes, ranks, entries and calls.           *)
(***************************************************************************)
EXTENDS Machine

CONSTANTS Seed, Prop, Lo, Hi, OutDir

Stop == [op |-> "stop"]
Skip == [op |-> "skip"]

(***************************************************************************)
(* Shapes, ranks, entries                                                  *)
(***************************************************************************)
\* d modes with product <= budget; the large ones come anywhere
GModes(K, d, budget) ==
  LET pool == IF d <= 2 THEN <<1, 2, 2, 3, 3, 4, 5, 6, 1, 2, 2, 3, 3, 4, 5, InR(K, 498, 7, 13)>>
              ELSE IF d <= 4 THEN <<1, 2, 2, 2, 3, 3, 4, 1, 2, 2, 2, 3, 3, 4, 1, 2, 2, 3, 4, InR(K, 498, 5, 8)>>
              ELSE <<1, 1, 2, 2, 2, 3>>
      step(acc, k) ==
        LET room == budget \div ProdSeq(acc)
        IN acc \o <<MaxI(1, MinI(room, Among(K, k, pool)))>>
      ms == FoldLeft(step, <<>>, Tab(d, LAMBDA k : k))
      turn == Pick(K, 499, d)
  IN Tab(d, LAMBDA k : ms[1 + ((k + turn) % d)])
GDims(K, dmax) == MinI(dmax, Among(K, 500, <<1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 6, 7>>))
\* inner ranks 1..rmax, independent of each other
GRanks(K, d, rmax) ==
  LET style == Pick(K, 600, 4)
      \* now and then one rank is much larger than the modes
      high == d \in 2..3 /\ rmax >= 4 /\ Chance(K, 599, 1, 12)
      hk == InR(K, 598, 2, d)
  IN Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1
                           ELSE IF high /\ k = hk THEN InR(K, 597, 6, 10)
                           ELSE CASE style = 0 -> 1
                                  [] style = 1 -> InR(K, 601, 1, rmax)
                                  [] OTHER -> InR(K, 602 + k, 1, rmax))
GEntries(K, n, d) ==
  LET style == Pick(K, 0, IF d <= 3 THEN 12 ELSE 8)
  IN Tab(n, LAMBDA i :
       CASE style \in 0..2 -> InR(K, i, -1, 1)
         [] style \in 3..4 -> Among(K, i, <<0, 1, -1, 2>>)
         [] style = 5 -> IF Chance(K, i, 1, 3) THEN InR(K, i + 5000, -2, 2) ELSE 0
         [] style = 6 -> Among(K, i, <<1, 1, 2, -1>>)
         [] style = 7 -> InR(K, i, -2, 2)
         [] style \in 8..9 -> InR(K, i, -3, 3)
         [] style = 10 -> InR(K, i, 0, 4)
         [] OTHER -> InR(K, i, -9, 9))
\* an object; zero cores with chance 1/25
GNew(K, o, kind, mat, dt, bs, rows, cols, rk) ==
  LET d == Len(rows)
      zero == Chance(K, 1, 1, 25)
      zk == InR(K, 2, 1, d)
      twin == Chance(K, 4, 1, 8)       \* cores of the same shape are equal
      shape(k) == <<rk[k], rows[k], cols[k], rk[k + 1]>>
      src(k) == IF twin THEN CHOOSE j \in 1..k : shape(j) = shape(k) /\ \A i \in 1..(j - 1) : shape(i) # shape(k) ELSE k
  IN [op |-> "new", o |-> o, a |-> <<>>, kind |-> kind, mat |-> mat, dt |-> dt, bs |-> bs,
      rows |-> rows, cols |-> cols, rk |-> rk, via |-> IF twin THEN Among(K, 3, <<0, 1, 6, 6>>) ELSE Pick(K, 3, 6),
      e |-> Tab(bs, LAMBDA b : Tab(d, LAMBDA k :
              IF zero /\ k = zk THEN Const(rk[k] * rows[k] * cols[k] * rk[k + 1], 0)
              ELSE GEntries(Sub(K, 100 * b + src(k) + 10), rk[k] * rows[k] * cols[k] * rk[k + 1], d)))]
GDt(K, j) == Among(K, j, <<"f64", "f64", "f64", "f32">>)
GBs(K, j) == Among(K, j, <<1, 2, 2, 3, 3, 4, 5, 1, 2, 2, 3, 3, 4, 5, InR(K, j + 9000, 6, 11)>>)
\* raw shape of a tensor or matrix with at most `budget' elements
GShape(K, mat, dmax, budget) ==
  LET d == GDims(K, dmax)
  IN IF ~mat THEN [rows |-> GModes(Sub(K, 1), d, budget), cols |-> Const(d, 1)]
     ELSE LET sq == Pick(K, 2, 4) = 0
              half == IF budget >= 100 THEN 12 ELSE IF budget >= 64 THEN 8 ELSE 6
              r == GModes(Sub(K, 1), d, half)
          IN [rows |-> r, cols |-> IF sq THEN r ELSE GModes(Sub(K, 3), d, half)]
GRmax(d) == IF d <= 2 THEN 5 ELSE IF d = 3 THEN 4 ELSE IF d = 4 THEN 3 ELSE 2
Ok(R, i) == i \in DOMAIN R
\* a random object of the given kind and raw shape
GObj(K, o, kind, mat, dt, sh) ==
  GNew(K, o, kind, mat, dt, IF kind = "batch" THEN GBs(K, 701) ELSE 1, sh.rows, sh.cols,
       GRanks(Sub(K, 702), Len(sh.rows), GRmax(Len(sh.rows))))
GKind(K, j) == Among(K, j, <<"tt", "tt", "batch", "batch", "batch">>)
\* objects with one more core, which the bond before it does not show
Longer(r) == r \o <<1>>
Call1(op, o, x) == [op |-> op, o |-> o, a |-> <<x>>]
Call2(op, o, x, y) == [op |-> op, o |-> o, a |-> <<x, y>>]
=============================================================================
