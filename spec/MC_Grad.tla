------------------------------ MODULE MC_Grad -------------------------------
(***************************************************************************)
(* The gradients and Hessians that the specification uses, against exact   *)
(* differences: every part is a polynomial of degree at most three, so for *)
(* a direction h                                                           *)
(*   8 (f(x+h) - f(x-h)) - (f(x+2h) - f(x-2h)) = 12 <grad f(x), h>         *)
(*   grad f(x+h) - grad f(x-h) = 2 Hess f(x) h   (degree three at most)    *)
(* and the step of the layer's gradient descent against differences.       *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANT N
VARIABLES idx
Init == idx \in 1..N
Next == UNCHANGED idx
Spec == Init /\ [][Next]_idx

Kinds == <<"inner", "norm2", "quad", "had", "cube", "dist", "mm", "gram", "gather", "fullw", "sparse", "frob2">>
Kn == Key(29, 15, idx)
kind == Kinds[(idx % Len(Kinds)) + 1]
vec == kind = "quad"
rows == <<InR(Kn, 1, 1, 2), InR(Kn, 2, 1, 3)>>
cols == IF vec \/ kind = "gather" THEN <<1, 1>> ELSE <<InR(Kn, 3, 1, 2), 1>>
Obj(mat, r, c, v) == [kind |-> "tt", mat |-> mat, dt |-> "f64", bs |-> 1, rows |-> r, cols |-> c, rk |-> <<1, 1, 1>>,
                      val |-> <<v>>, den |-> 1, mag |-> 10, cores |-> <<>>]
Vec(j, n) == Tab(n, LAMBDA q : InR(Kn, j * 100 + q, -3, 3))
sz == ProdSeq(rows) * ProdSeq(cols)
X(t, h) == Obj(kind # "gather", rows, cols, DAdd(Vec(5, sz), DScale(t, h)))
Regs == <<CASE kind = "quad" -> Obj(TRUE, rows, rows, Vec(6, ProdSeq(rows) * ProdSeq(rows)))
            [] kind = "mm" -> Obj(TRUE, <<2, 1>>, rows, Vec(6, 2 * ProdSeq(rows)))
            [] kind = "gram" -> Obj(TRUE, cols, cols, Vec(6, ProdSeq(cols) * ProdSeq(cols)))
            [] OTHER -> Obj(kind # "gather", rows, cols, Vec(6, sz)),
          Obj(TRUE, <<2, 1>>, cols, Vec(7, 2 * ProdSeq(cols)))>>
part == [p |-> kind, a |-> <<1, 2>>, s |-> InR(Kn, 8, -2, 2), ix |-> <<1, sz, 1>>, w |-> <<2, -1, 3>>]
H(i) == Basis(sz, i)
Fn(t, h) == PVal(part, X(t, h), Regs)
Partial(i) == 8 * (Fn(1, H(i)) - Fn(-1, H(i))) - (Fn(2, H(i)) - Fn(-2, H(i)))
Applies == PartOk(part, X(0, H(1)), Regs)
GradIs == PartOk(part, X(0, H(1)), Regs)
          /\ \A i \in 1..sz : Partial(i) = 12 * PGrad(part, X(0, H(1)), Regs)[i]
HessIs == \A i \in 1..sz : DSub(PGrad(part, X(1, H(i)), Regs), PGrad(part, X(-1, H(i)), Regs))
                           = DScale(2, PHess(part, X(0, H(1)), Regs, i))
HessSym == \A i \in 1..sz : \A j \in 1..sz : PHess(part, X(0, H(1)), Regs, i)[j] = PHess(part, X(0, H(1)), Regs, j)[i]
\* combinations of two parts: products and squares by the same differences
part2 == [part EXCEPT !.p = "norm2"]
part3 == [p |-> "fullw", a |-> <<1, 2>>, s |-> 1, ix |-> Tab(sz, LAMBDA q : q), w |-> Tab(sz, LAMBDA q : InR(Kn, 900 + q, -2, 2))]
Call(comb) == [parts |-> <<part3, part2>>, cw |-> <<3, -2>>, comb |-> comb]
Val(comb, x) == LET a == PVal(part3, x, Regs)
                    b == PVal(part2, x, Regs)
                IN CASE comb = "lin" -> 3 * a - 2 * b
                     [] comb = "prod" -> a * b
                     [] comb = "sq" -> a * a
CombIs == \A comb \in {"lin", "prod", "sq"} : \A i \in 1..sz :
  /\ 8 * (Val(comb, X(1, H(i))) - Val(comb, X(-1, H(i)))) - (Val(comb, X(2, H(i))) - Val(comb, X(-2, H(i))))
     = 12 * FnGrad(Call(comb), X(0, H(1)), Regs)[i]
  /\ DSub(FnGrad(Call(comb), X(1, H(i)), Regs), FnGrad(Call(comb), X(-1, H(i)), Regs))
     = DScale(2, FnHess(Call(comb), X(0, H(1)), Regs, i))

\* the layer: the new weights are the old ones minus the partial derivatives of
\* the loss; linear and square activations are polynomials of degree two
act == Among(Kn, 50, <<"linear", "square">>)
lr == <<InR(Kn, 51, 1, 2), 2>>
lc == <<InR(Kn, 52, 1, 2), 1>>
lk == <<1, InR(Kn, 53, 1, 2), 1>>
Layer(e, b) == [kind |-> "layer", rows |-> lr, cols |-> lc, rk |-> lk, act |-> act, bias |-> TRUE,
                cores |-> Tab(2, LAMBDA k : Core(lk[k], lr[k], lc[k], lk[k + 1], e[k])), b |-> b, bden |-> 1, dt |-> "f64"]
E0 == Tab(2, LAMBDA k : Tab(lk[k] * lr[k] * lc[k] * lk[k + 1], LAMBDA q : InR(Kn, 600 + 50 * k + q, -1, 1)))
B0 == Tab(ProdSeq(lc), LAMBDA q : InR(Kn, 800 + q, -1, 1))
NX == 2
Xs == Tab(NX * ProdSeq(lr), LAMBDA q : InR(Kn, 700 + q, -1, 1))
Ws == Tab(NX * ProdSeq(lc), LAMBDA q : InR(Kn, 750 + q, -1, 1))
Cal == [x |-> Xs, n |-> NX, w |-> Ws]
Loss(e, b) == DDot(Ws, Map(Affine(Layer(e, b), Xs, NX), LAMBDA z : Act(act, z)))
Shift(e, k, q, t) == [e EXCEPT ![k][q] = e[k][q] + t]
LayerIs ==
  LET r == SemKTrain(Cal, Layer(E0, B0))
  IN r.k = "layer" =>
       /\ \A k \in 1..2 : \A q \in DOMAIN E0[k] :
            Loss(Shift(E0, k, q, 1), B0) - Loss(Shift(E0, k, q, -1), B0) = 2 * (E0[k][q] - r.L.cores[k].e[q])
       /\ \A q \in DOMAIN B0 : Loss(E0, [B0 EXCEPT ![q] = B0[q] + 1]) - Loss(E0, [B0 EXCEPT ![q] = B0[q] - 1])
                               = 2 * (B0[q] - r.L.b[q])
=============================================================================
