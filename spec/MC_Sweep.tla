------------------------------ MODULE MC_Sweep ------------------------------
(***************************************************************************)
(* The core-by-core algorithms as machines: one step per core, with the    *)
(* loop invariant and the result against the meaning given in T3F.         *)
(*                                                                         *)
(* What a machine computes is linear in every core of each operand (for    *)
(* sums: in the pair of cores at each position), as is the meaning.  It is *)
(* therefore enough to run the machines on all operands whose cores are    *)
(* unit vectors: agreement there is agreement for all operands of that     *)
(* shape.  Forms: [n, m, l, xr, yr] modes and ranks (l: columns of the     *)
(* second factor of a matrix product).                                     *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANTS Ops, Depth, Big3

VARIABLES op, f, x, y, z, k, out, acc
vars == <<op, f, x, y, z, k, out, acc>>

UnitCore(r, n, m, s, q) == Core(r, n, m, s, Tab(r * n * m * s, LAMBDA i : IF i = q THEN 1 ELSE 0))
Forms2 == {[n |-> nn, m |-> mm, l |-> ll, xr |-> <<1, a, 1>>, yr |-> <<1, b, 1>>] :
             nn \in {<<2, 2>>, <<1, 3>>}, mm \in {<<1, 1>>, <<2, 1>>}, ll \in {<<1, 2>>}, a \in 1..2, b \in {2, 1}}
Forms1 == {[n |-> <<3>>, m |-> <<mm>>, l |-> <<2>>, xr |-> <<1, 1>>, yr |-> <<1, 1>>] : mm \in 1..2}
Forms3 == {[n |-> <<2, 1, 2>>, m |-> <<1, mm, 1>>, l |-> <<1, 2, 1>>, xr |-> <<1, 2, a, 1>>, yr |-> <<1, 1, 2, 1>>] :
             mm \in 1..2, a \in 1..Big3}
Forms == Forms1 \cup (IF Depth >= 2 THEN Forms2 ELSE {}) \cup (IF Depth >= 3 THEN Forms3 ELSE {})

Nd(g) == Len(g.n)
\* trains of unit cores of the given modes and ranks
CoreSet(r, n, m, s) == {UnitCore(r, n, m, s, q) : q \in 1..(r * n * m * s)}
Trains(n, m, rk) ==
  CASE Len(n) = 1 -> {<<a>> : a \in CoreSet(1, n[1], m[1], 1)}
    [] Len(n) = 2 -> {<<a, b>> : a \in CoreSet(1, n[1], m[1], rk[2]), b \in CoreSet(rk[2], n[2], m[2], 1)}
    [] Len(n) = 3 -> {<<a, b, c>> : a \in CoreSet(1, n[1], m[1], rk[2]), b \in CoreSet(rk[2], n[2], m[2], rk[3]),
                                    c \in CoreSet(rk[3], n[3], m[3], 1)}
ZeroCore(c) == [c EXCEPT !.e = Zeros(Len(c.e))]
\* for sums: at every position either the core of x or that of y is zero
Masked(t, u, mask) == [x |-> Tab(Len(t), LAMBDA i : IF mask[i] THEN t[i] ELSE ZeroCore(t[i])),
                       y |-> Tab(Len(t), LAMBDA i : IF mask[i] THEN ZeroCore(u[i]) ELSE u[i])]
SecondOf(o, g) == CASE o = "matmul" -> Trains(g.m, g.l, g.yr)
                    [] o = "bilin" -> Trains(g.m, Const(Nd(g), 1), g.yr)
                    [] o \in {"full", "trans"} -> {<<>>}
                    [] OTHER -> Trains(g.n, g.m, g.yr)
\* left vector of a bilinear form
Thirds(o, g) == IF o = "bilin" THEN Trains(g.n, Const(Nd(g), 1), IF Nd(g) = 2 THEN <<1, 2, 1>> ELSE Const(Nd(g) + 1, 1))
                ELSE {<<>>}

Init ==
  /\ op \in Ops
  /\ f \in Forms
  /\ \E t \in Trains(f.n, f.m, f.xr) : \E u \in SecondOf(op, f) :
       IF op = "add"
       THEN \E mask \in [1..Nd(f) -> BOOLEAN] : LET p == Masked(t, u, mask) IN x = p.x /\ y = p.y
       ELSE x = t /\ y = u
  /\ z \in Thirds(op, f)
  /\ k = 0
  /\ out = <<>>
  /\ acc = <<1>>
Step ==
  /\ k < Nd(f)
  /\ k' = k + 1
  /\ UNCHANGED <<op, f, x, y, z>>
  /\ CASE op = "full" -> out' = <<IF k = 0 THEN x[1] ELSE Join(out[1], x[k + 1])>> /\ acc' = acc
       [] op = "add" -> out' = Append(out, AddCore(x[k + 1], y[k + 1], k = 0, k + 1 = Nd(f))) /\ acc' = acc
       [] op = "mul" -> out' = Append(out, MulCore(x[k + 1], y[k + 1])) /\ acc' = acc
       [] op = "matmul" -> out' = Append(out, MatMulCore(x[k + 1], y[k + 1])) /\ acc' = acc
       [] op = "trans" -> out' = Append(out, TransCore(x[k + 1])) /\ acc' = acc
       [] op = "inner" -> out' = out /\ acc' = InnerStep(acc, x[k + 1], y[k + 1])
       [] op = "bilin" -> out' = out /\ acc' = BilinStep(acc, z[k + 1], x[k + 1], y[k + 1])
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the contraction of the first k cores, as a core
Pre(cs) == Contract(SubSeq(cs, 1, k))
Part == IF op = "full" THEN out[1] ELSE Contract(out)
LoopInv ==
  k >= 1 =>
  CASE op = "full" -> LET p == Pre(x) IN Part = p
    [] op = "add" -> LET p == Pre(x)
                         q == Pre(y)
                         o == Part
                     IN IF k < Nd(f)
                        THEN /\ o.s = p.s + q.s
                             /\ \A i \in 0..(p.n - 1) : \A j \in 0..(p.m - 1) : \A b \in 0..(o.s - 1) :
                                  El(o, 0, i, j, b) = (IF b < p.s THEN El(p, 0, i, j, b) ELSE El(q, 0, i, j, b - p.s))
                        ELSE o.e = DAdd(p.e, q.e)
    [] op = "mul" -> Part = MulCore(Pre(x), Pre(y))
    [] op = "matmul" -> Part = MatMulCore(Pre(x), Pre(y))
    [] op = "trans" -> Part = TransCore(Pre(x))
    [] op = "inner" -> acc = InnerStep(<<1>>, Pre(x), Pre(y))
    [] op = "bilin" -> acc = BilinStep(<<1>>, Pre(z), Pre(x), Pre(y))
\* the call's meaning
AsObj(cs) == [kind |-> "tt", mat |-> TRUE, dt |-> "f64", bs |-> 1, rows |-> RowsOf(cs), cols |-> ColsOf(cs),
              rk |-> RanksOf(cs), val |-> <<DenseOf(cs)>>, den |-> 1, mag |-> MagOf(cs), cores |-> <<>>]
Meets(e) == /\ IsTrain(out) /\ DenseOf(out) = e.val[1] /\ RowsOf(out) = e.rows /\ ColsOf(out) = e.cols
            /\ \A i \in DOMAIN e.rkmax : RanksOf(out)[i] <= e.rkmax[i]
Done ==
  k = Nd(f) =>
  CASE op = "full" ->
         LET N == ProdSeq(f.n)
             M == ProdSeq(f.m)
         IN \A q \in 1..(N * M) :
              Part.e[q] = PathSum(x, 1, 0, Digits((q - 1) \div M, f.n), Digits((q - 1) % M, f.m))
    [] op = "add" -> Meets(SemLin(AsObj(x), AsObj(y), 1))
    [] op = "mul" -> Meets(SemMul(AsObj(x), AsObj(y)))
    [] op = "matmul" -> Meets(SemMatMul(AsObj(x), AsObj(y)))
    [] op = "trans" -> Meets(SemTranspose(AsObj(x)))
    [] op = "inner" -> acc = SemInner(AsObj(x), AsObj(y)).val
    [] op = "bilin" -> acc = SemBilinear(AsObj(x), AsObj(z), AsObj(y)).val
Terminates == <>(k = Nd(f))
=============================================================================
