------------------------------ MODULE MC_Gauge ------------------------------
(***************************************************************************)
(* Moving a factor from a core to its neighbour (the step of every         *)
(* orthogonalization, rounding and renormalization sweep) keeps the value: *)
(* G_k := G_k U, G_{k+1} := U^-1 G_{k+1}.  All unit cores, all unimodular  *)
(* 2 x 2 matrices with small entries, in both directions.  And the ranks a *)
(* sweep in both directions leaves bound the ranks of the unfoldings.      *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANTS N
VARIABLES mode, idx, x, y, k, dir
vars == <<mode, idx, x, y, k, dir>>
UnitCore(r, m, s, q) == Core(r, m, 1, s, Tab(r * m * s, LAMBDA i : IF i = q THEN 1 ELSE 0))
CoreSet(r, m, s) == {UnitCore(r, m, s, q) : q \in 1..(r * m * s)}
Uni == {u \in {Tab(4, LAMBDA i : f[i]) : f \in [1..4 -> -1..1]} : Abs(Det(u, 2)) = 1}
Mat(u) == Core(2, 1, 1, 2, u)
Inv(u) == Mat(DScale(Det(u, 2), Adj(u, 2)))
Random(i) ==
  LET K == Key(31, 12, i)
      d == 2 + (i % 2)
      m == Tab(d, LAMBDA t : InR(K, t, 1, 3))
      rk == Tab(d + 1, LAMBDA t : IF t = 1 \/ t = d + 1 THEN 1 ELSE InR(K, 10 + t, 1, 4))
  IN Tab(d, LAMBDA t : Core(rk[t], m[t], 1, rk[t + 1], Tab(rk[t] * m[t] * rk[t + 1], LAMBDA q : InR(K, 100 * t + q, -2, 2))))
Init ==
  \/ /\ mode = "gauge" /\ idx = 0
     /\ x \in {<<a, b, c>> : a \in CoreSet(1, 2, 2), b \in CoreSet(2, 1, 2), c \in CoreSet(2, 2, 1)}
     /\ y = x
     /\ dir \in {"right", "left"}
     /\ k = (IF dir = "right" THEN 1 ELSE 3)
  \/ /\ mode = "ranks" /\ idx \in 1..N /\ x = Random(idx) /\ y = <<>> /\ k = 0 /\ dir = "none"
Next ==
  /\ mode = "gauge"
  /\ UNCHANGED <<mode, idx, x, dir>>
  /\ \/ /\ dir = "right" /\ k < 3 /\ k' = k + 1
        /\ \E u \in Uni : y' = [y EXCEPT ![k] = CoreMat(y[k], Mat(u)), ![k + 1] = MatCore(Inv(u), y[k + 1])]
     \/ /\ dir = "left" /\ k > 1 /\ k' = k - 1
        /\ \E u \in Uni : y' = [y EXCEPT ![k] = MatCore(Inv(u), y[k]), ![k - 1] = CoreMat(y[k - 1], Mat(u))]
Spec == Init /\ [][Next]_vars
Kept1 == mode = "gauge" => IsTrain(y) /\ DenseOf(y) = DenseOf(x)
RanksBound == mode = "ranks" =>
  LET t == Trimmed(RanksOf(x), RowsOf(x))
  IN \A j \in 1..(Len(x) - 1) :
       /\ UnfRank(DenseOf(x), RowsOf(x), ColsOf(x), j) <= t[j + 1]
       /\ t[j + 1] <= RanksOf(x)[j + 1]
       /\ t[j + 1] <= MinI(SizeTo(RowsOf(x), j), SizeFrom(RowsOf(x), j))
=============================================================================
