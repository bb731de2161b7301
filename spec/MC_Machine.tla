----------------------------- MODULE MC_Machine -----------------------------
(***************************************************************************)
(* The register machine with an ideal implementation (every call has the   *)
(* outcome the specification demands, with the largest allowed ranks): all *)
(* histories of a few calls on a few operands.  The abstract state stays   *)
(* well formed, the promised rank bounds and magnitudes really bound the   *)
(* values, no call changes another register, failed calls change nothing,  *)
(* and the algebraic laws hold of everything that is reachable.            *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Depth, Start, Acts
VARIABLES R, n, last
vars == <<R, n, last>>

Ob(kind, mat, bs, rows, cols, cs) ==
  [kind |-> kind, mat |-> mat, dt |-> "f64", bs |-> bs, rows |-> rows, cols |-> cols, rk |-> RanksOf(cs[1]),
   val |-> Tab(bs, LAMBDA b : DenseOf(cs[b])), den |-> 1, mag |-> MaxSeq(Tab(bs, LAMBDA b : MagOf(cs[b]))), cores |-> cs]
Cs(mat, rows, cols, rk, key) ==
  Tab(Len(rows), LAMBDA k : Core(rk[k], rows[k], cols[k], rk[k + 1],
        Tab(rk[k] * rows[k] * cols[k] * rk[k + 1], LAMBDA q : InR(Key(key, 26, k), q, -2, 2))))
T(key, r) == Ob("tt", FALSE, 1, <<2, 3>>, <<1, 1>>, <<Cs(FALSE, <<2, 3>>, <<1, 1>>, <<1, r, 1>>, key)>>)
TB(key, r) == Ob("batch", FALSE, 2, <<2, 3>>, <<1, 1>>,
                 Tab(2, LAMBDA b : Cs(FALSE, <<2, 3>>, <<1, 1>>, <<1, r, 1>>, key + b)))
M(key, r) == Ob("tt", TRUE, 1, <<2, 1>>, <<2, 1>>, <<Cs(TRUE, <<2, 1>>, <<2, 1>>, <<1, r, 1>>, key)>>)
MB(key, r) == Ob("batch", TRUE, 3, <<2, 1>>, <<2, 1>>, Tab(3, LAMBDA b : Cs(TRUE, <<2, 1>>, <<2, 1>>, <<1, r, 1>>, key + b)))
V(key, r) == Ob("tt", TRUE, 1, <<2, 1>>, <<1, 1>>, <<Cs(TRUE, <<2, 1>>, <<1, 1>>, <<1, r, 1>>, key)>>)
Starts == CASE Start = "tensors" -> <<T(3, 1), T(5, 2), TB(7, 1)>>
            [] Start = "matrices" -> <<M(3, 2), V(5, 1), MB(7, 1)>>
            [] Start = "mixed" -> <<T(4, 2), M(6, 1), TB(8, 2), V(9, 2)>>
Call(op, a) == [op |-> op, a |-> a, o |-> n + Len(Starts) + 1, m |-> "e"]
\* all calls of the given actions on the registers
It(k) == [k |-> "s", lo |-> None, hi |-> None, st |-> None]
Calls ==
  LET I == DOMAIN R \ {0}
      un == {Call(o, <<i>>) : o \in Acts \cap {"neg", "transpose", "expand", "squeeze", "renorm"}, i \in I}
      bin == {Call(o, <<i, j>>) : o \in Acts \cap {"add", "sub", "mul", "matmul", "concat"}, i \in I, j \in I}
      sc == IF "scale" \in Acts THEN {[op |-> "scale", a |-> <<i>>, o |-> n + Len(Starts) + 1, m |-> "e", num |-> 3, den |-> 2] : i \in I} ELSE {}
      sl == IF "slice" \in Acts
            THEN {[op |-> "slice", a |-> <<i>>, o |-> n + Len(Starts) + 1, m |-> "e", ix |-> ix] : i \in I,
                  ix \in {<<[k |-> "i", v |-> -1], It(1)>>, <<[k |-> "s", lo |-> None, hi |-> None, st |-> -1], [k |-> "s", lo |-> 1, hi |-> None, st |-> None]>>,
                          <<[k |-> "i", v |-> 1]>>, <<[k |-> "s", lo |-> 0, hi |-> 2, st |-> 1]>>, <<It(1), [k |-> "i", v |-> 0], It(1)>>}}
            ELSE {}
      red == IF "add_n" \in Acts THEN {[op |-> "add_n", a |-> <<i, j, i>>, o |-> n + Len(Starts) + 1, m |-> "e", cap |-> 9] : i \in I, j \in I} ELSE {}
  IN un \cup bin \cup sc \cup sl \cup red
Ideal(e) == [ok |-> e.k # "err", r |-> [ark |-> IF e.k = "obj" THEN (IF e.rkmax = <<>> THEN Tab(Len(e.rows) + 1, LAMBDA i : IF i \in {1, Len(e.rows) + 1} THEN 1 ELSE 99) ELSE e.rkmax) ELSE <<>>]]
Init == /\ n = 0
        /\ R = [i \in 0..Len(Starts) |-> IF i = 0 THEN Nil ELSE Starts[i]]
        /\ last = [k |-> "start"]
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \E c \in Calls : LET e == Expect(c, R)
                            IN R' = After(c, R, e, Ideal(e)) /\ last' = [k |-> e.k]
Spec == Init /\ [][Next]_vars

Objs == {R[i] : i \in DOMAIN R \ {0}}
\* the others were judged in an earlier state
Newest == IF n = 0 THEN Objs ELSE IF (n + Len(Starts)) \in DOMAIN R THEN {R[n + Len(Starts)]} ELSE {}
TypeOK == \A x \in Objs : /\ x.kind \in {"tt", "batch"} /\ Len(x.val) = x.bs /\ (x.kind = "tt" => x.bs = 1)
                          /\ Len(x.rows) = Len(x.cols) /\ Len(x.rk) = Len(x.rows) + 1
                          /\ (~x.mat => \A k \in DOMAIN x.cols : x.cols[k] = 1)
                          /\ \A b \in 1..x.bs : Len(x.val[b]) = Num(x)
                          /\ x.den >= 1 /\ x.mag < Lim
RankSound == \A x \in Newest : \A b \in 1..x.bs : \A k \in 1..(ND(x) - 1) :
               UnfRank(x.val[b], x.rows, x.cols, k) <= x.rk[k + 1]
MagSound == \A x \in Newest : \A b \in 1..x.bs : AbsMax(x.val[b]) <= x.mag
NoLoss == last.k \in {"start", "obj", "err", "free", "big"}
Unchanged == [][\A i \in DOMAIN R : i \in DOMAIN R' /\ R'[i] = R[i]]_vars
Rejected == [][last'.k = "err" => R' = R]_vars

Same(e, f) == e.k # "obj" \/ f.k # "obj" \/
              (e.kind = f.kind /\ e.rows = f.rows /\ e.cols = f.cols
               /\ \A b \in 1..e.bs : DScale(f.den, e.val[b]) = DScale(e.den, f.val[b]))
AsReg(e) == [kind |-> e.kind, mat |-> e.mat, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows, cols |-> e.cols,
             rk |-> e.rkmax, val |-> e.val, den |-> e.den, mag |-> e.mag, cores |-> <<>>]
Then(e, f(_)) == IF e.k = "obj" THEN f(AsReg(e)) ELSE Free
Laws2 ==
  \A x \in Newest : \A y \in Objs :
    /\ Same(SemLin(x, y, 1), SemLin(y, x, 1))
    /\ Same(SemMul(x, y), SemMul(y, x))
    /\ Same(SemLin(x, y, -1), Then(SemScale(y, -1, 1), LAMBDA z : SemLin(x, z, 1)))
    /\ Same(Then(SemMatMul(x, y), SemTranspose),
            Then(SemTranspose(x), LAMBDA u : Then(SemTranspose(y), LAMBDA v : SemMatMul(v, u))))
    /\ (SemLin(x, y, 1).k = "err") <=> (SemMul(x, y).k = "err")
    /\ LET e == SemInner(x, y) IN e.k = "num" => e.val = SemInner(y, x).val
Laws1 ==
  \A x \in Newest :
    /\ Same(Then(SemTranspose(x), SemTranspose), SemScale(x, 1, 1))
    /\ LET e == SemInner(x, x) IN e.k = "num" => e.val = SemNorm2(x).val
    /\ Same(SemLin(x, x, 1), SemScale(x, 2, 1))
    /\ LET z == SemLin(x, x, -1) IN z.k = "obj" => \A b \in 1..x.bs : AbsMax(z.val[b]) = 0
Laws3 ==
  \A x \in {R[i] : i \in 1..Len(Starts)} : \A y \in {R[i] : i \in 1..Len(Starts)} : \A z \in Newest :
    /\ Same(Then(SemLin(x, y, 1), LAMBDA s : SemMul(s, z)),
            Then(SemMul(x, z), LAMBDA u : Then(SemMul(y, z), LAMBDA v : SemLin(u, v, 1))))
    /\ Same(Then(SemMatMul(x, y), LAMBDA u : SemMatMul(u, z)), Then(SemMatMul(y, z), LAMBDA u : SemMatMul(x, u)))
    /\ Same(Then(SemLin(x, y, 1), LAMBDA s : SemMatMul(z, s)),
            Then(SemMatMul(z, x), LAMBDA u : Then(SemMatMul(z, y), LAMBDA v : SemLin(u, v, 1))))
=============================================================================
