-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Objects too large for a dense value.  A long object has, instead of     *)
(* val, a tensor train of integer cores per element (tr) that denotes its  *)
(* value; the calls are specified on these trains with the core-by-core    *)
(* algorithms of TTAlg.  An object is compared with a result at the        *)
(* positions that the call lists (c.pr, each [i, j]: row and column        *)
(* multi-index): val are its elements there.  MC_Long checks that for      *)
(* objects small enough for both, this is what T3F says.                   *)
(***************************************************************************)
EXTENDS Scale, TTAlg

IsLong(c) == Has(c, "pr")

(***************************************************************************)
(* One element, bounds, inner products                                     *)
(***************************************************************************)
LRow(v, core, i, j) ==          \* row vector times a slice of the core
  Tab(core.s, LAMBDA b : Sum(core.r, LAMBDA a : IF v[a] = 0 THEN 0 ELSE v[a] * El(core, a - 1, i, j, b - 1)))
LEntry(tr, p) ==
  FoldLeftDomain(LAMBDA v, k : LRow(v, tr[k], p.i[k], p.j[k]), <<1>>, tr)[1]
\* a bound on all elements and on all partial products of slices
LMag(tr) ==
  LET step(v, core) ==
        Tab(core.s, LAMBDA b :
          MaxSeq(Tab(core.n * core.m, LAMBDA q :
            FoldSet(LAMBDA a, acc : SatAdd(acc, SatMul(v[a], Abs(core.e[((a - 1) * core.n * core.m + q - 1) * core.s + b]))),
                    0, 1..core.r))))
      all == FoldLeft(LAMBDA acc, core : LET w == step(acc.v, core) IN [v |-> w, top |-> MaxI(acc.top, MaxSeq(w))],
                      [v |-> <<1>>, top |-> 1], tr)
  IN all.top
\* the running matrix of an inner product, with the arithmetic given
LStep(acc, x, y, plus(_, _), times(_, _)) ==
  LET nm == x.n * x.m
      T == Tab(y.r * nm * x.s, LAMBDA q :      \* (aa, w, b): sum_a acc[a, aa] x[a, w, b]
             LET aa == (q - 1) \div (nm * x.s)
                 w == ((q - 1) \div x.s) % nm
                 b == (q - 1) % x.s
             IN FoldSet(LAMBDA a, s : LET u == acc[(a - 1) * y.r + aa + 1]
                                          t == x.e[((a - 1) * nm + w) * x.s + b + 1]
                                      IN IF u = 0 \/ t = 0 THEN s ELSE plus(s, times(u, t)), 0, 1..x.r))
  IN Tab(x.s * y.s, LAMBDA q :
       LET b == (q - 1) \div y.s
           bb == (q - 1) % y.s
       IN FoldSet(LAMBDA z, s : LET t == T[(z - 1) * x.s + b + 1]
                                    u == y.e[(z - 1) * y.s + bb + 1]
                                IN IF u = 0 \/ t = 0 THEN s ELSE plus(s, times(t, u)), 0, 1..(y.r * nm)))
IPlus(a, b) == a + b
ITimes(a, b) == a * b
SatTimes(a, b) == SatMul(Abs(a), Abs(b))
LInner(x, y) == FoldLeftDomain(LAMBDA acc, k : LStep(acc, x[k], y[k], IPlus, ITimes), <<1>>, x)[1]
\* the largest number that comes up, with absolute values
LInnerMag(x, y) ==
  LET f == FoldLeftDomain(LAMBDA acc, k : LET w == LStep(acc.v, x[k], y[k], SatAdd, SatTimes)
                                          IN [v |-> w, top |-> MaxI(acc.top, MaxSeq(w))], [v |-> <<1>>, top |-> 1], x)
  IN f.top
LBilin(u, A, v) == FoldLeftDomain(LAMBDA acc, k : BilinStep(acc, u[k], A[k], v[k]), <<1>>, A)[1]
\* u' A v through the train of A v
LMatTrain(x, y) == Tab(Len(x), LAMBDA k : MatMulCore(x[k], y[k]))
LBilinMag(u, A, v) == LInnerMag(u, Tab(Len(A), LAMBDA k : MatMulCore(AbsCore(A[k]), AbsCore(v[k]))))

(***************************************************************************)
(* Ranks of the unfoldings, modulo a prime (never more than the true       *)
(* ranks, and with two primes practically always equal): the rank of L R   *)
(* is that of (L'L)(R R').                                                 *)
(***************************************************************************)
LGrams(tr, p) ==       \* L'L of the first k cores, k = 0..d (index k + 1)
  LET res(c) == [c EXCEPT !.e = Map(c.e, LAMBDA z : z % p)]
      add(a, b) == (a + b) % p
      mul(a, b) == (a * b) % p
  IN FoldLeft(LAMBDA acc, c : Append(acc, LStep(acc[Len(acc)], res(c), res(c), add, mul)), <<<<1>>>>, tr)
FlipCore(c) == MkCore(c.s, c.n, c.m, c.r, LAMBDA a, i, j, b : El(c, b, i, j, a))
FlipTrain(tr) == Tab(Len(tr), LAMBDA k : FlipCore(tr[Len(tr) + 1 - k]))
LRankP(tr, p) ==
  LET L == LGrams(tr, p)
      Q == LGrams(FlipTrain(tr), p)
      d == Len(tr)
  IN Tab(d + 1, LAMBDA k :
       IF k = 1 \/ k = d + 1 THEN 1
       ELSE LET r == tr[k].r
                g == L[k]
                h == Q[d + 2 - k]
            IN RankMod(Tab(r * r, LAMBDA q :
                 FoldSet(LAMBDA t, acc : (acc + g[((q - 1) \div r) * r + t] * h[(t - 1) * r + ((q - 1) % r) + 1]) % p, 0, 1..r)),
                 r, r, p))
LRanks(tr) == LET a == LRankP(tr, P1)
                  b == LRankP(tr, P2)
              IN Tab(Len(a), LAMBDA k : MaxI(1, MaxI(a[k], b[k])))

(***************************************************************************)
(* Objects                                                                 *)
(***************************************************************************)
LObj(kind, mat, dt, bs, rows, cols, rkmax, trs, fac, pr) ==
  LET mag == SatMul(MaxSeq(Map(trs, LMag)), fac)
  IN IF mag >= Lim THEN Big
     ELSE ObjD(kind, mat, dt, bs, rows, cols, rkmax, Map(trs, LAMBDA t : Map(pr, LAMBDA p : LEntry(t, p))), 1, mag)
          @@ [tr |-> trs]
LLike(x, rkmax, trs, fac, pr) == LObj(x.kind, x.mat, x.dt, x.bs, x.rows, x.cols, rkmax, trs, fac, pr)
LElt(x, b) == x.tr[IF x.bs = 1 THEN 1 ELSE b]
LNum(shp, v, mag, dt) == ArrD(shp, v, 1, mag, dt)

LScaleTrain(t, f) == [t EXCEPT ![1] = ScaleCore(f, t[1])]
LAddTrain(x, y) == Tab(Len(x), LAMBDA k : AddCore(x[k], y[k], k = 1, k = Len(x)))
LSumTrain(ts) == FoldLeft(LAMBDA acc, t : LAddTrain(acc, t), ts[1], Tail(ts))
\* items: one per mode
LSliceTrain(t, items) ==
  LET id(s) == Core(s, 1, 1, s, Tab(s * s, LAMBDA q : IF (q - 1) \div s = (q - 1) % s THEN 1 ELSE 0))
      step(acc, k) ==
        LET part == SelCore(t[k], ItemIdx(t[k].n, items[k]))
        IN IF items[k].k = "i" THEN [out |-> acc.out, pend |-> Join(acc.pend, part)]
           ELSE [out |-> Append(acc.out, MatCore(acc.pend, part)), pend |-> id(part.s)]
      all == FoldLeft(step, [out |-> <<>>, pend |-> Unit1], Tab(Len(t), LAMBDA k : k))
  IN [all.out EXCEPT ![Len(all.out)] = CoreMat(@, all.pend)]

LCapOK(x, cap) ==
  \A b \in DOMAIN x.tr :
    \/ \A k \in 1..ND(x) : CapAt(cap, k) >= x.tr[b][k].r
    \/ LET r == LRanks(x.tr[b]) IN \A k \in DOMAIN r : CapAt(cap, k) >= r[k]
SatProd(s) == FoldLeft(LAMBDA acc, z : SatMul(acc, z), 1, s)
LRankBound(rows, cols, cap, rk) ==
  LET d == Len(rows)
      p == Modes(rows, cols)
  IN Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1
                           ELSE MinI(MinI(CapAt(cap, k), rk[k]),
                                     MinI(SatProd(SubSeq(p, 1, k - 1)), SatProd(SubSeq(p, k, d)))))
LRoot(n) == FoldLeft(LAMBDA acc, s : IF (acc + s) * (acc + s) <= n THEN acc + s ELSE acc, 0, <<1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)
\* calls that keep the value but compute with orthogonal factors: the errors
\* are relative to the norm
LNormFac(trs) ==
  LET n2 == MaxSeq(Map(trs, LAMBDA t : LInnerMag(t, t)))
  IN IF n2 >= Lim THEN Lim ELSE LRoot(n2) + 1
LKeep(x, rkmax, trs, pr) ==
  LET f == LNormFac(trs)
      e == LLike(x, rkmax, trs, 1, pr)
  IN IF e.k # "obj" \/ f >= Lim THEN Big ELSE [e EXCEPT !.mag = 2 * (@ + f)]

\* z is in the tangent space at the object t: it differs from it in at most
\* one core (and the representation of t is minimal)
LTangent(z, t) ==
  /\ Len(z) = Len(t)
  /\ \A k \in DOMAIN t : z[k].r = t[k].r /\ z[k].s = t[k].s /\ z[k].n = t[k].n /\ z[k].m = t[k].m
  /\ Cardinality({k \in DOMAIN t : z[k] # t[k]}) <= 1
LMinimal(t) == LRanks(t) = RanksOf(t)

LSlots(x) == IF IsBatch(x) THEN <<x.bs>> ELSE <<>>
LKron(x) == x.mat /\ x.rows = x.cols /\ \A k \in DOMAIN x.rk : x.rk[k] = 1
LDenseShape(x, p) == IF x.mat THEN <<ModProd(x.rows, p), ModProd(x.cols, p)>> ELSE Map(x.rows, LAMBDA n : n % p)
\* log2 |det| of an integer matrix whose determinant is a power of two, -1 if not
Log2Of(z) == IF \E i \in 0..20 : Abs(z) = Pow(2, i) THEN CHOOSE i \in 0..20 : Abs(z) = Pow(2, i) ELSE -1

(***************************************************************************)
(* The calls                                                               *)
(***************************************************************************)
LongExpect(c, R) ==
  LET x == R[c.a[1]]
      y == R[c.a[2]]
      w3 == R[c.a[3]]
      nb == Bc(x, y)
      bcobj(rows, cols, rkf(_), f(_, _)) ==
        LObj(BcKind(x, y), x.mat, x.dt, nb, rows, cols, InnerRanks(x, rkf), Tab(nb, LAMBDA b : f(LElt(x, b), LElt(y, b))), 1, c.pr)
  IN CASE c.op = "new" ->
            LObj(c.kind, c.mat, c.dt, c.bs, c.rows, c.cols, c.rk, Tab(c.bs, LAMBDA b : CoresOf(c, b)), 1, c.pr)
       [] c.op \in {"add", "sub"} ->
            IF ~SameForm(x, y) \/ nb = 0 THEN Err("ValueError") ELSE IF x.dt # y.dt THEN Free
            ELSE bcobj(x.rows, x.cols, LAMBDA k : x.rk[k] + y.rk[k],
                       LAMBDA t, u : LAddTrain(t, IF c.op = "add" THEN u ELSE LScaleTrain(u, -1)))
       [] c.op = "mul" ->
            IF ~SameForm(x, y) \/ nb = 0 THEN Err("ValueError") ELSE IF x.dt # y.dt THEN Free
            ELSE bcobj(x.rows, x.cols, LAMBDA k : x.rk[k] * y.rk[k],
                       LAMBDA t, u : Tab(Len(t), LAMBDA k : MulCore(t[k], u[k])))
       [] c.op = "matmul" ->
            IF ~x.mat \/ ~y.mat \/ nb = 0 \/ ND(x) # ND(y) THEN Err("ValueError")
            ELSE IF x.cols # y.rows THEN Err("any") ELSE IF x.dt # y.dt THEN Free
            ELSE bcobj(x.rows, y.cols, LAMBDA k : x.rk[k] * y.rk[k], LMatTrain)
       [] c.op = "transpose" ->
            IF ~x.mat THEN Err("ValueError")
            ELSE LObj(x.kind, TRUE, x.dt, x.bs, x.cols, x.rows, x.rk, Map(x.tr, LAMBDA t : Map(t, TransCore)), 1, c.pr)
       [] c.op = "neg" -> LLike(x, x.rk, Map(x.tr, LAMBDA t : LScaleTrain(t, -1)), 1, c.pr)
       [] c.op = "scale" -> IF c.den # 1 THEN Free
                            ELSE LLike(x, x.rk, Map(x.tr, LAMBDA t : LScaleTrain(t, c.num)), 1, c.pr)
       [] c.op = "scale_batch" -> IF ~IsBatch(x) \/ Len(c.w) # x.bs \/ c.wden # 1 THEN Free
                                  ELSE LLike(x, x.rk, Tab(x.bs, LAMBDA b : LScaleTrain(x.tr[b], c.w[b])), 1, c.pr)
       [] c.op = "expand" -> LObj("batch", x.mat, x.dt, x.bs, x.rows, x.cols, x.rk, x.tr, 1, c.pr)
       [] c.op = "squeeze" -> LObj(IF x.bs = 1 THEN "tt" ELSE "batch", x.mat, x.dt, x.bs, x.rows, x.cols, x.rk, x.tr, 1, c.pr)
       [] c.op = "cast" -> IF c.dt = "f32" THEN LObj(x.kind, x.mat, c.dt, x.bs, x.rows, x.cols, x.rk, x.tr, 2, c.pr) ELSE Free
       [] c.op = "concat" ->
            IF ~IsBatch(x) \/ ~IsBatch(y) \/ ~SameForm(x, y) \/ x.rk # y.rk THEN Err("ValueError") ELSE IF x.dt # y.dt THEN Free
            ELSE LObj("batch", x.mat, x.dt, x.bs + y.bs, x.rows, x.cols, x.rk, x.tr \o y.tr, 1, c.pr)
       [] c.op = "slice" ->
            LET items == IF IsBatch(x) THEN Tail(c.ix) ELSE c.ix
                bsel == IF IsBatch(x) THEN ItemIdx(x.bs, c.ix[1]) ELSE <<0>>
                kind == IF IsBatch(x) /\ c.ix[1].k = "s" THEN "batch" ELSE "tt"
            IN IF IsBatch(x) /\ OutOfRange(x.bs, c.ix[1]) THEN Err("any")
               ELSE IF IsBatch(x) /\ Len(c.ix) = 1
               THEN LObj(kind, x.mat, x.dt, Len(bsel), x.rows, x.cols, x.rk, Map(bsel, LAMBDA b : x.tr[b + 1]), 1, c.pr)
               ELSE IF Len(items) # ND(x) THEN Err("ValueError")
               ELSE IF x.mat THEN Err("NotImplementedError")
               ELSE IF \E k \in DOMAIN items : OutOfRange(x.rows[k], items[k]) THEN Err("any")
               ELSE IF Kept(items) = <<>> \/ Len(bsel) = 0 \/ \E k \in DOMAIN items : ItemIdx(x.rows[k], items[k]) = <<>> THEN Free
               ELSE LET rows == Map(Kept(items), LAMBDA k : Len(ItemIdx(x.rows[k], items[k])))
                    IN LObj(kind, FALSE, x.dt, Len(bsel), rows, Const(Len(rows), 1), <<>>,
                            Map(bsel, LAMBDA b : LSliceTrain(x.tr[b + 1], items)), 1, c.pr)
       [] c.op = "gather" ->      \* an array of n multi-indices (with the element first for batches)
            LET w == ND(x) + (IF IsBatch(x) THEN 1 ELSE 0)
                n == c.ish[1]
                row(q) == SubSeq(c.ix, (q - 1) * w + 1, q * w)
                at(q) == [i |-> IF IsBatch(x) THEN Tail(row(q)) ELSE row(q), j |-> Const(ND(x), 0)]
            IN IF x.mat THEN Err("NotImplementedError") ELSE IF c.ish[2] # w THEN Err("ValueError")
               ELSE IF \E q \in 1..n : (\E k \in 1..ND(x) : at(q).i[k] >= x.rows[k]) \/ (IsBatch(x) /\ row(q)[1] >= x.bs) THEN Err("any")
               ELSE LNum(<<n>>, Tab(n, LAMBDA q : LEntry(x.tr[IF IsBatch(x) THEN row(q)[1] + 1 ELSE 1], at(q))), x.mag, x.dt)
       [] c.op = "inner" ->
            IF x.mat # y.mat \/ nb = 0 \/ ND(x) # ND(y) THEN Err("ValueError")
            ELSE IF ~SameForm(x, y) THEN Err("any") ELSE IF x.dt # y.dt THEN Free
            ELSE LET m == MaxSeq(Tab(nb, LAMBDA b : LInnerMag(LElt(x, b), LElt(y, b))))
                 IN IF m >= Lim THEN Big
                    ELSE LNum(IF BcKind(x, y) = "batch" THEN <<nb>> ELSE <<>>,
                              Tab(nb, LAMBDA b : LInner(LElt(x, b), LElt(y, b))), m, x.dt)
       [] c.op = "l_sparse" ->    \* inner product with a sparse tensor: weights at positions
            IF IsBatch(x) THEN Free
            ELSE LNum(<<>>, <<FoldLeftDomain(LAMBDA acc, q : acc + c.w[q] * LEntry(x.tr[1], c.at[q]), 0, c.w)>>,
                      SatMul(x.mag, AbsSum(c.w)), x.dt)
       [] c.op \in {"norm2", "norm"} ->
            \* (the square of a norm that is close to zero may come out negative)
            LET m == MaxSeq(Map(x.tr, LAMBDA t : LInnerMag(t, t)))
                v == Map(x.tr, LAMBDA t : LInner(t, t))
            IN IF m >= Lim THEN Big ELSE IF c.op = "norm" /\ \E i \in DOMAIN v : v[i] < m \div 10000 + 1 THEN Free
               ELSE LNum(LSlots(x), v, SatMul(2, m), x.dt)
       [] c.op \in {"gram", "pair"} ->
            LET q == IF c.op = "gram" THEN x ELSE y
                at(z) == <<x.tr[(z - 1) \div q.bs + 1], q.tr[((z - 1) % q.bs) + 1]>>
                m == MaxSeq(Tab(x.bs * q.bs, LAMBDA z : LInnerMag(at(z)[1], at(z)[2])))
            IN IF ~IsBatch(x) \/ ~IsBatch(q) \/ ~SameForm(x, q) \/ x.dt # q.dt THEN Free
               ELSE IF m >= Lim THEN Big
               ELSE LNum(<<x.bs, q.bs>>, Tab(x.bs * q.bs, LAMBDA z : LInner(at(z)[1], at(z)[2])), m, x.dt)
       [] c.op = "bilin" ->       \* y' x w3
            IF ~x.mat \/ ~y.mat \/ ~w3.mat \/ IsBatch(x) \/ MaxSeq(y.cols) # 1 \/ MaxSeq(w3.cols) # 1 THEN Free
            ELSE IF x.rows # y.rows \/ x.cols # w3.rows \/ Bc(y, w3) = 0 THEN Free
            ELSE LET n == Bc(y, w3)
                     m == MaxSeq(Tab(n, LAMBDA b : LBilinMag(LElt(y, b), x.tr[1], LElt(w3, b))))
                 IN IF m >= Lim THEN Big
                    ELSE LNum(IF BcKind(y, w3) = "batch" THEN <<n>> ELSE <<>>,
                              Tab(n, LAMBDA b : LBilin(LElt(y, b), x.tr[1], LElt(w3, b))), m, x.dt)
       [] c.op = "pair_mat" ->
            IF ~w3.mat \/ ~x.mat \/ ~y.mat \/ ~IsBatch(x) \/ ~IsBatch(y) \/ IsBatch(w3) \/ MaxSeq(x.cols) # 1 \/ MaxSeq(y.cols) # 1 THEN Free
            ELSE IF w3.rows # x.rows \/ w3.cols # y.rows THEN Err("ValueError")
            ELSE LET xi(z) == x.tr[(z - 1) \div y.bs + 1]
                     yj(z) == y.tr[((z - 1) % y.bs) + 1]
                     m == MaxSeq(Tab(x.bs * y.bs, LAMBDA z : LBilinMag(xi(z), w3.tr[1], yj(z))))
                 IN IF m >= Lim THEN Big
                    ELSE LNum(<<x.bs, y.bs>>, Tab(x.bs * y.bs, LAMBDA z : LBilin(xi(z), w3.tr[1], yj(z))), m, x.dt)
       [] c.op = "round" ->
            IF ~LCapOK(x, c.cap) THEN Free
            ELSE LKeep(x, LRankBound(x.rows, x.cols, c.cap, x.rk), x.tr, c.pr)
       [] c.op = "orth" -> IF IsBatch(x) /\ ~c.l2r THEN Err("NotImplementedError")
                           ELSE LKeep(x, x.rk, x.tr, c.pr)
       [] c.op = "renorm" -> LLike(x, x.rk, x.tr, 4, c.pr)
       [] c.op = "l_var" -> LLike(x, x.rk, x.tr, 1, c.pr)
       [] c.op = "add_n" ->
            IF \E i \in DOMAIN c.a : ~SameForm(R[c.a[i]], x) \/ R[c.a[i]].dt # x.dt \/ R[c.a[i]].bs # x.bs \/ R[c.a[i]].kind # x.kind THEN Free
            ELSE LET trs == Tab(x.bs, LAMBDA b : LSumTrain(Map(c.a, LAMBDA i : R[i].tr[b])))
                     rk == InnerRanks(x, LAMBDA k : MinI(c.cap, Sum(Len(c.a), LAMBDA i : R[c.a[i]].rk[k])))
                 IN IF \E t \in Range(trs) : MaxSeq(RanksOf(t)) > c.cap THEN Free ELSE LKeep(x, rk, trs, c.pr)
       [] c.op = "reduce_sum" ->
            IF ~IsBatch(x) \/ c.cf.k # "none" THEN Free
            ELSE LET t == LSumTrain(x.tr)
                     e == LKeep(x, InnerRanks(x, LAMBDA k : c.cap), <<t>>, c.pr)
                 IN IF MaxSeq(RanksOf(t)) > c.cap THEN Free ELSE IF e.k # "obj" THEN e ELSE [e EXCEPT !.kind = "tt", !.bs = 1]
       [] c.op = "project" ->
            IF x.bs = 0 \/ IsBatch(y) \/ ~SameForm(x, y) \/ x.dt # y.dt THEN Free
            ELSE IF ~LMinimal(y.tr[1]) \/ y.rk # RanksOf(y.tr[1]) \/ \E b \in 1..x.bs : ~LTangent(x.tr[b], y.tr[1]) THEN Free
            ELSE LET e == LKeep(x, InnerRanks(y, LAMBDA k : 2 * y.rk[k]), x.tr, c.pr)
                 IN IF e.k # "obj" THEN e ELSE [e EXCEPT !.mag = SatMul(@, 8)] @@ [tp |-> c.a[2]]
       [] c.op = "project_sum" ->
            IF ~IsBatch(x) \/ IsBatch(y) \/ ~SameForm(x, y) \/ x.dt # y.dt \/ c.wt.k # "none" THEN Free
            ELSE IF ~LMinimal(y.tr[1]) \/ y.rk # RanksOf(y.tr[1]) \/ \E b \in 1..x.bs : ~LTangent(x.tr[b], y.tr[1]) THEN Free
            ELSE LET e == LKeep(y, InnerRanks(y, LAMBDA k : 2 * y.rk[k]), <<LSumTrain(x.tr)>>, c.pr)
                 IN IF e.k # "obj" THEN e ELSE [e EXCEPT !.mag = SatMul(@, 8)] @@ [tp |-> c.a[2]]
       [] c.op = "pair_proj" ->
            LET at(z) == <<x.tr[(z - 1) \div y.bs + 1], y.tr[((z - 1) % y.bs) + 1]>>
                m == MaxSeq(Tab(x.bs * y.bs, LAMBDA z : LInnerMag(at(z)[1], at(z)[2])))
                n == SatMul(LNormFac(x.tr), LNormFac(y.tr))
            IN IF ~Has(x, "tp") \/ ~Has(y, "tp") THEN Free
               ELSE IF x.tp # y.tp \/ ~IsBatch(x) \/ ~IsBatch(y) \/ x.dt # y.dt THEN Free
               ELSE IF m >= Lim \/ n >= Lim \div 16 THEN Big
               ELSE LNum(<<x.bs, y.bs>>, Tab(x.bs * y.bs, LAMBDA z : LInner(at(z)[1], at(z)[2])), 8 * (m + n), x.dt)
       [] c.op = "grad" ->        \* of <x, z> or <x, x>
            IF ~LMinimal(x.tr[1]) \/ x.rk # RanksOf(x.tr[1]) THEN Free
            ELSE IF c.parts[1].p = "norm2"
            THEN LET e == LKeep(x, InnerRanks(x, LAMBDA k : 2 * x.rk[k]), <<LScaleTrain(x.tr[1], 2)>>, c.pr)
                 IN IF e.k # "obj" THEN e ELSE [e EXCEPT !.mag = SatMul(@, 8)]
            ELSE LET z == R[c.parts[1].a[1]]
                     e == LKeep(x, InnerRanks(x, LAMBDA k : 2 * x.rk[k]), z.tr, c.pr)
                 IN IF ~LTangent(z.tr[1], x.tr[1]) THEN Free ELSE IF e.k # "obj" THEN e ELSE [e EXCEPT !.mag = SatMul(@, 8)]
       [] c.op = "shapefn" -> SemShapeFn(c.f, x)
       [] c.op = "l_shape" ->     \* the dense shape, modulo two primes
            LET s == LSlots(x) \o LDenseShape(x, P1) \o LSlots(x) \o LDenseShape(x, P2)
            IN ArrD(<<Len(s)>>, s, 1, 0, "int")
       [] c.op = "kslog" ->       \* log2 |det| / N
            LET at(b, k) == Log2Of(Det(x.tr[b][k].e, x.rows[k]))
                den == IF \A k \in DOMAIN x.rows : 4 % x.rows[k] = 0 THEN 4 ELSE 6
                odd(k) == \A j \in DOMAIN x.rows : j = k \/ x.rows[j] % 2 = 1
                sgn(b) == ProdSeq(Tab(ND(x), LAMBDA k : IF odd(k) THEN Sgn(Det(x.tr[b][k].e, x.rows[k])) ELSE 1))
            IN IF ~LKron(x) \/ \E b \in 1..x.bs : \E k \in DOMAIN x.rows : at(b, k) < 0 \/ den % x.rows[k] # 0 THEN Free
               ELSE ArrD(LSlots(x), Tab(x.bs, LAMBDA b : SumSeq(Tab(ND(x), LAMBDA k : at(b, k) * (den \div x.rows[k])))), den, 100, x.dt)
                    @@ [sg |-> Tab(x.bs, LAMBDA b : sgn(b))]
       [] c.op = "kinv" ->        \* of cores with determinant 1 or -1
            IF ~LKron(x) \/ \E b \in 1..x.bs : \E k \in DOMAIN x.rows : Abs(Det(x.tr[b][k].e, x.rows[k])) # 1 THEN Free
            ELSE LLike(x, x.rk, Map(x.tr, LAMBDA t : Map(t, LAMBDA q : ScaleCore(Det(q.e, q.n), [q EXCEPT !.e = Adj(q.e, q.n)]))), 8, c.pr)
       [] c.op = "kchol" ->
            IF ~LKron(x) \/ \E b \in 1..x.bs : \E k \in DOMAIN x.rows : CholInt(x.tr[b][k].e, x.rows[k]) = <<>> THEN Free
            ELSE LLike(x, x.rk, Map(x.tr, LAMBDA t : Map(t, LAMBDA q : [q EXCEPT !.e = CholInt(q.e, q.n)])), 8, c.pr)
       [] c.op = "l_const" ->     \* tensor_ones, matrix_zeros, eye, ...
            LET d == Len(c.rows)
                el(i, j) == IF c.f \in {"tensor_zeros", "matrix_zeros"} THEN 0 ELSE IF c.f = "eye" /\ i # j THEN 0 ELSE 1
                t == Tab(d, LAMBDA k : MkCore(1, c.rows[k], c.cols[k], 1, LAMBDA a, i, j, b : el(i, j)))
            IN LObj("tt", c.f \notin {"tensor_ones", "tensor_zeros"}, c.dt, 1, c.rows, c.cols, Const(d + 1, 1), <<t>>, 1, c.pr)
       [] c.op = "l_like" -> IF IsBatch(x) THEN Free
                             ELSE LLike(x, Const(ND(x) + 1, 1),
                                   Tab(x.bs, LAMBDA b : Tab(ND(x), LAMBDA k : MkCore(1, x.rows[k], x.cols[k], 1, LAMBDA p, i, j, q : c.one))),
                                   1, c.pr)
       [] c.op = "l_rand" ->      \* log2 of the mean square of the elements (all modes are powers of two)
            LET sum(s) == SumSeq(Map(s, Log2Of))
                a == sum(c.rows)
                b == sum(c.cols)
                v == CASE c.f = "glorot_initializer" -> IF a = b THEN -a ELSE 1 - MaxI(a, b)
                       [] c.f = "he_initializer" -> 1 - a
                       [] c.f = "lecun_initializer" -> -a
                       [] OTHER -> 0
            IN ArrD(<<>>, <<v>>, 1, 0, "int") @@ [slack |-> 10]
=============================================================================
