-------------------------------- MODULE T3F ---------------------------------
(***************************************************************************)
(* The t3f API as a state machine over registers.                          *)
(*                                                                         *)
(* The state is a function from register numbers to TT objects (or Nil).   *)
(* Every public call is an action: Sem(c, R) is the outcome the call c     *)
(* must have in state R -- an object that goes to register c.o, an array   *)
(* of numbers, or an error -- and nothing else in the state changes.       *)
(*                                                                         *)
(* An object is abstracted to its dense value: integers (over a common     *)
(* denominator den), one flattened N x M matrix per batch element.         *)
(*   kind  "tt" | "batch"          mat   is a TT-matrix                    *)
(*   dt    "f32"|"f64"|"i32"|"i64" bs    number of elements (1 for "tt")   *)
(*   rows, cols  raw shape (cols all ones for TT-tensors)                  *)
(*   rk    TT-ranks                val, den   the value                    *)
(*   mag   bound on intermediate magnitudes (numeric tolerance only)       *)
(*   cores the integer cores per element, <<>> when not known exactly      *)
(***************************************************************************)
EXTENDS TTCore

Nil == [kind |-> "nil"]
None == 99999

Num(rec) == ProdSeq(rec.rows) * ProdSeq(rec.cols)
NN(x) == ProdSeq(x.rows)
MM(x) == ProdSeq(x.cols)
ND(x) == Len(x.rows)
IsBatch(x) == x.kind = "batch"
Elt(x, b) == x.val[IF x.bs = 1 THEN 1 ELSE b]

(***************************************************************************)
(* Outcomes                                                                *)
(***************************************************************************)
Err(name) == [k |-> "err", err |-> name]       \* "any": some exception
Free == [k |-> "free"]                         \* unspecified
Big == [k |-> "big"]                           \* beyond the integers of TLC
ArrD(shp, v, den, mag, dt) ==
  IF mag >= Lim \/ den > 8 THEN Big ELSE
  [k |-> "num", shp |-> shp, val |-> v, den |-> den, mag |-> mag, dt |-> dt]
ObjD(kind, mat, dt, bs, rows, cols, rkmax, val, den, mag) ==
  IF mag >= Lim \/ den > 8 THEN Big ELSE
  [k |-> "obj", kind |-> kind, mat |-> mat, dt |-> dt, bs |-> bs, rows |-> rows,
   cols |-> cols, rkmax |-> rkmax, val |-> val, den |-> den, mag |-> mag]
\* same kind, shape and type as x, other ranks and value
Like(x, rkmax, val, den, mag) ==
  ObjD(x.kind, x.mat, x.dt, x.bs, x.rows, x.cols, rkmax, val, den, mag)

(***************************************************************************)
(* Batch broadcasting                                                      *)
(***************************************************************************)
Bc(x, y) == IF x.bs = y.bs THEN x.bs
            ELSE IF x.bs = 1 THEN y.bs
            ELSE IF y.bs = 1 THEN x.bs
            ELSE 0
BcKind(x, y) == IF IsBatch(x) \/ IsBatch(y) THEN "batch" ELSE "tt"

(***************************************************************************)
(* Construction from integer cores                                         *)
(***************************************************************************)
CoresOf(c, b) ==
  Tab(Len(c.rows), LAMBDA k : Core(c.rk[k], c.rows[k], c.cols[k], c.rk[k + 1], c.e[b][k]))
SemNew(c) ==
  LET cs == Tab(c.bs, LAMBDA b : CoresOf(c, b))
  IN ObjD(c.kind, c.mat, c.dt, c.bs, c.rows, c.cols, c.rk,
          Tab(c.bs, LAMBDA b : DenseOf(cs[b])), 1,
          MaxSeq(Tab(c.bs, LAMBDA b : MagOf(cs[b]))))

(***************************************************************************)
(* Construction from arbitrary cores: c.cs are the core shapes, c.cdt      *)
(* their dtypes; shape (raw, one sequence per axis kind), TT-ranks and     *)
(* batch size may be given explicitly.                                     *)
(***************************************************************************)
ConstructOK(c) ==
  LET d == Len(c.cs)
      off == IF c.kind = "batch" THEN 1 ELSE 0
      ax == Len(c.cs[1]) - off
      L(k) == c.cs[k][off + 1]
      Rt(k) == c.cs[k][Len(c.cs[k])]
  IN /\ \A k \in 1..d : c.cdt[k] = c.cdt[1]
     /\ ax \in {3, 4}
     /\ \A k \in 1..d : Len(c.cs[k]) = ax + off
     /\ \A k \in 1..(d - 1) : Rt(k) = L(k + 1)
     /\ L(1) = 1 /\ Rt(d) = 1
     /\ c.kind = "batch" => \A k \in 1..d : c.cs[k][1] = c.cs[1][1]
     /\ c.hasshp => /\ Len(c.shp) = ax - 2
                    /\ \A i \in DOMAIN c.shp : /\ Len(c.shp[i]) = d
                                               /\ \A k \in 1..d : c.shp[i][k] = c.cs[k][off + 1 + i]
     /\ c.hasrk => /\ Len(c.rkx) = d + 1
                   /\ \A k \in 1..d : c.rkx[k] = L(k)
                   /\ c.rkx[d + 1] = Rt(d)
     /\ c.hasbs /\ c.kind = "batch" => c.bsx = c.cs[1][1]
SemConstruct(c) ==
  IF c.hasrk /\ Len(c.rkx) > Len(c.cs) + 1 THEN Free
  ELSE IF ~ConstructOK(c) THEN Err("ValueError")
  ELSE LET d == Len(c.cs)
           off == IF c.kind = "batch" THEN 1 ELSE 0
           mat == Len(c.cs[1]) - off = 4
       IN [k |-> "form", kind |-> c.kind, mat |-> mat, dt |-> c.cdt[1],
           bs |-> IF c.kind = "batch" THEN c.cs[1][1] ELSE 1,
           rows |-> Tab(d, LAMBDA k : c.cs[k][off + 2]),
           cols |-> Tab(d, LAMBDA k : IF mat THEN c.cs[k][off + 3] ELSE 1),
           rkmax |-> Tab(d + 1, LAMBDA k : IF k = d + 1 THEN 1 ELSE c.cs[k][off + 1]),
           val |-> <<>>, den |-> 1, mag |-> 0]

(***************************************************************************)
(* Dense value and metadata                                                *)
(***************************************************************************)
DenseShape(x) == IF x.mat THEN <<NN(x), MM(x)>> ELSE x.rows
BShape(x) == IF IsBatch(x) THEN <<x.bs>> ELSE <<>>
SemFull(x) == ArrD(BShape(x) \o DenseShape(x), Flat(x.val), x.den, x.mag, x.dt)

\* the shape functions: shape, raw_shape, tt_ranks, batch_size (static or not)
SemShapeFn(f, x) ==
  CASE f \in {"shape", "lazy_shape", "get_shape"} ->
         LET s == BShape(x) \o DenseShape(x) IN ArrD(<<Len(s)>>, s, 1, 0, "int")
    [] f \in {"raw_shape", "lazy_raw_shape", "get_raw_shape"} ->
         IF x.mat THEN ArrD(<<2, ND(x)>>, x.rows \o x.cols, 1, 0, "int")
         ELSE ArrD(<<1, ND(x)>>, x.rows, 1, 0, "int")
    [] f \in {"tt_ranks", "lazy_tt_ranks", "get_tt_ranks"} ->
         ArrD(<<ND(x) + 1>>, x.rk, 1, 0, "int")
    [] f \in {"batch_size", "lazy_batch_size"} ->
         IF IsBatch(x) THEN ArrD(<<>>, <<x.bs>>, 1, 0, "int") ELSE Err("ValueError")
    [] f = "ndims" -> ArrD(<<>>, <<ND(x)>>, 1, 0, "int")
    [] f = "is_tt_matrix" -> ArrD(<<>>, <<IF x.mat THEN 1 ELSE 0>>, 1, 0, "int")

(***************************************************************************)
(* Elementwise algebra                                                     *)
(***************************************************************************)
SameForm(x, y) == x.mat = y.mat /\ x.rows = y.rows /\ x.cols = y.cols
InnerRanks(x, f(_)) == Tab(Len(x.rk), LAMBDA k : IF k = 1 \/ k = Len(x.rk) THEN 1 ELSE f(k))

SemLin(x, y, sy) ==     \* x + sy * y, sy in {1, -1}
  IF ~SameForm(x, y) \/ Bc(x, y) = 0 THEN Err("ValueError")
  ELSE IF x.dt # y.dt THEN Free
  ELSE LET nb == Bc(x, y)
           d == IF x.den = y.den THEN x.den ELSE x.den * y.den
           fx == d \div x.den
           fy == (d \div y.den) * sy
       IN ObjD(BcKind(x, y), x.mat, x.dt, nb, x.rows, x.cols,
               InnerRanks(x, LAMBDA k : x.rk[k] + y.rk[k]),
               Tab(nb, LAMBDA b : LET u == Elt(x, b)
                                      v == Elt(y, b)
                                  IN Tab(Len(u), LAMBDA i : fx * u[i] + fy * v[i])),
               d, SatAdd(SatMul(x.mag, d \div x.den), SatMul(y.mag, d \div y.den)))

SemMul(x, y) ==
  IF ~SameForm(x, y) \/ Bc(x, y) = 0 THEN Err("ValueError")
  ELSE IF x.dt # y.dt THEN Free
  ELSE LET nb == Bc(x, y)
       IN ObjD(BcKind(x, y), x.mat, x.dt, nb, x.rows, x.cols,
               InnerRanks(x, LAMBDA k : x.rk[k] * y.rk[k]),
               Tab(nb, LAMBDA b : DHad(Elt(x, b), Elt(y, b))),
               x.den * y.den, SatMul(x.mag, y.mag))

SemScale(x, num, den) ==
  LET g == IF den # 1 /\ num % den = 0 THEN den ELSE 1
  IN Like(x, x.rk, Tab(x.bs, LAMBDA b : DScale(num \div g, x.val[b])), x.den * (den \div g),
          SatMul(x.mag, Abs(num \div g)))

(***************************************************************************)
(* Matrix algebra                                                          *)
(***************************************************************************)
SemTranspose(x) ==
  IF ~x.mat THEN Err("ValueError")
  ELSE ObjD(x.kind, TRUE, x.dt, x.bs, x.cols, x.rows, x.rk,
            Tab(x.bs, LAMBDA b : DTrans(x.val[b], NN(x), MM(x))), x.den, x.mag)

SemMatMul(x, y) ==
  IF ~x.mat \/ ~y.mat THEN Err("ValueError")
  ELSE IF Bc(x, y) = 0 \/ ND(x) # ND(y) THEN Err("ValueError")
  ELSE IF x.cols # y.rows THEN Err("any")
  ELSE IF x.dt # y.dt THEN Free
  ELSE LET nb == Bc(x, y)
       IN ObjD(BcKind(x, y), TRUE, x.dt, nb, x.rows, y.cols,
               InnerRanks(x, LAMBDA k : x.rk[k] * y.rk[k]),
               Tab(nb, LAMBDA b : DMatMul(Elt(x, b), Elt(y, b), NN(x), MM(x), MM(y))),
               x.den * y.den, SatMul(SatMul(x.mag, y.mag), MM(x)))

\* TT-matrix times dense n x m matrix v (and dense times TT-matrix)
SemMatDense(x, v, n, m) ==
  IF ~x.mat \/ IsBatch(x) THEN Err("ValueError")
  ELSE IF MM(x) # n THEN Err("ValueError")
  ELSE ArrD(<<NN(x), m>>, DMatMul(x.val[1], v, NN(x), n, m), x.den,
            SatMul(SatMul(x.mag, AbsMax(v)), n), x.dt)
SemDenseMat(v, n, m, x) ==
  IF ~x.mat \/ IsBatch(x) THEN Err("ValueError")
  ELSE IF m # NN(x) THEN Err("ValueError")
  ELSE ArrD(<<n, MM(x)>>, DMatMul(v, x.val[1], n, m, MM(x)), x.den,
            SatMul(SatMul(x.mag, AbsMax(v)), m), x.dt)

(***************************************************************************)
(* Inner products, norms and bilinear forms                                *)
(***************************************************************************)
SemInner(x, y) ==
  IF x.mat # y.mat \/ Bc(x, y) = 0 \/ ND(x) # ND(y) THEN Err("ValueError")
  ELSE IF ~SameForm(x, y) THEN Err("any")
  ELSE IF x.dt # y.dt THEN Free
  ELSE LET nb == Bc(x, y)
       IN ArrD(IF BcKind(x, y) = "batch" THEN <<nb>> ELSE <<>>,
               Tab(nb, LAMBDA b : DDot(Elt(x, b), Elt(y, b))), x.den * y.den,
               SatMul(SatMul(x.mag, y.mag), Num(x)), x.dt)

\* ix: 0-based linear indices (row-major, within N x M), w: integer weights
\* same: the sparse tensor has the shape of x
SemInnerSparse(x, ix, w, same) ==
  IF IsBatch(x) \/ ~same THEN Err("any")
  ELSE ArrD(<<>>, <<FoldLeftDomain(LAMBDA acc, i : acc + w[i] * x.val[1][ix[i] + 1], 0, ix)>>,
            x.den, SatMul(x.mag, AbsSum(w)), x.dt)

SemNorm2(x) ==
  ArrD(BShape(x), Tab(x.bs, LAMBDA b : DDot(x.val[b], x.val[b])), x.den * x.den,
       SatMul(SatMul(x.mag, x.mag), Num(x)), x.dt)

\* b' A c
SemBilinear(A, b, c) ==
  IF ~A.mat \/ ~b.mat \/ ~c.mat THEN Err("ValueError")
  ELSE IF IsBatch(A) THEN Err("any")
  ELSE IF IsBatch(b) /\ IsBatch(c) /\ b.bs # c.bs THEN Free
  ELSE IF MM(b) # 1 \/ MM(c) # 1 THEN Free
  ELSE IF A.rows # b.rows \/ A.cols # c.rows THEN Err("any")
  ELSE LET nb == Bc(b, c)
       IN ArrD(IF BcKind(b, c) = "batch" THEN <<nb>> ELSE <<>>,
               Tab(nb, LAMBDA i :
                     DDot(Elt(b, i), DMatMul(A.val[1], Elt(c, i), NN(A), MM(A), 1))),
               A.den * b.den * c.den,
               SatMul(SatMul(SatMul(A.mag, b.mag), SatMul(c.mag, NN(A))), MM(A)), A.dt)

\* x' A B y
SemBilinear2(x, A, B, y) ==
  IF ~A.mat \/ ~B.mat \/ ~x.mat \/ ~y.mat THEN Err("ValueError")
  ELSE IF IsBatch(A) \/ IsBatch(B) THEN Err("any")
  ELSE IF IsBatch(x) /\ IsBatch(y) /\ x.bs # y.bs THEN Free
  ELSE IF MM(x) # 1 \/ MM(y) # 1 THEN Free
  ELSE IF A.rows # x.rows \/ A.cols # B.rows \/ B.cols # y.rows THEN Err("any")
  ELSE LET nb == Bc(x, y)
           AB == DMatMul(A.val[1], B.val[1], NN(A), MM(A), MM(B))
       IN ArrD(IF BcKind(x, y) = "batch" THEN <<nb>> ELSE <<>>,
               Tab(nb, LAMBDA i : DDot(Elt(x, i), DMatMul(AB, Elt(y, i), NN(A), MM(B), 1))),
               A.den * B.den * x.den * y.den,
               SatMul(SatMul(SatMul(A.mag, B.mag), SatMul(x.mag, y.mag)),
                      SatMul(NN(A), SatMul(MM(A), MM(B)))), A.dt)

(***************************************************************************)
(* Batch operations                                                        *)
(***************************************************************************)
SemConcat(xs) ==
  IF \E i \in DOMAIN xs : ~IsBatch(xs[i]) THEN Err("ValueError")
  ELSE IF \E i \in DOMAIN xs : ~SameForm(xs[i], xs[1]) \/ xs[i].rk # xs[1].rk THEN Err("ValueError")
  ELSE IF \E i \in DOMAIN xs : xs[i].dt # xs[1].dt \/ xs[i].den # xs[1].den THEN Free
  ELSE LET x == xs[1]
           bs == SumSeq(Map(xs, LAMBDA z : z.bs))
       IN ObjD("batch", x.mat, x.dt, bs, x.rows, x.cols, x.rk,
               Flat(Map(xs, LAMBDA z : z.val)), x.den, MaxSeq(Map(xs, LAMBDA z : z.mag)))

SemScaleBatch(x, w, wden) ==
  IF ~IsBatch(x) \/ Len(w) # x.bs THEN Free
  ELSE Like(x, x.rk, Tab(x.bs, LAMBDA b : DScale(w[b], x.val[b])), x.den * wden,
            SatMul(x.mag, AbsMax(w)))

SemPairwise(x, y) ==
  IF ~IsBatch(x) \/ ~IsBatch(y) \/ x.dt # y.dt THEN Free
  ELSE IF ~SameForm(x, y) THEN Err("any")
  ELSE ArrD(<<x.bs, y.bs>>,
            Tab(x.bs * y.bs, LAMBDA q : DDot(x.val[(q - 1) \div y.bs + 1],
                                             y.val[((q - 1) % y.bs) + 1])),
            x.den * y.den, SatMul(SatMul(x.mag, y.mag), Num(x)), x.dt)
\* x_i' A y_j for column vectors
SemPairwiseMat(x, y, A) ==
  IF ~x.mat \/ ~y.mat \/ ~A.mat THEN Err("ValueError")
  ELSE IF A.rows # x.rows \/ A.cols # y.rows THEN Err("ValueError")
  ELSE IF MM(x) # 1 \/ MM(y) # 1 THEN Err("any")
  ELSE IF ~IsBatch(x) \/ ~IsBatch(y) \/ IsBatch(A) THEN Free
  ELSE ArrD(<<x.bs, y.bs>>,
            Tab(x.bs * y.bs, LAMBDA q :
                  DDot(x.val[(q - 1) \div y.bs + 1],
                       DMatMul(A.val[1], y.val[((q - 1) % y.bs) + 1], NN(A), MM(A), 1))),
            x.den * y.den * A.den,
            SatMul(SatMul(SatMul(A.mag, x.mag), SatMul(y.mag, NN(A))), MM(A)), x.dt)

(***************************************************************************)
(* Indexing.  An item is [k |-> "i", v |-> index] or                       *)
(* [k |-> "s", lo, hi, st] with None for an absent part (Python slices).   *)
(***************************************************************************)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
ItemIdx(n, it) ==       \* the selected 0-based positions, in order
  IF it.k = "i" THEN <<IF it.v < 0 THEN it.v + n ELSE it.v>>
  ELSE LET st == IF it.st = None THEN 1 ELSE it.st
           Wrap(z) == IF z < 0 THEN z + n ELSE z
           lo == IF st > 0 THEN (IF it.lo = None THEN 0 ELSE Clip(Wrap(it.lo), 0, n))
                           ELSE (IF it.lo = None THEN n - 1 ELSE Clip(Wrap(it.lo), -1, n - 1))
           hi == IF st > 0 THEN (IF it.hi = None THEN n ELSE Clip(Wrap(it.hi), 0, n))
                           ELSE (IF it.hi = None THEN -1 ELSE Clip(Wrap(it.hi), -1, n - 1))
           cnt == IF st > 0 THEN (IF hi > lo THEN (hi - lo + st - 1) \div st ELSE 0)
                            ELSE (IF lo > hi THEN (lo - hi - st - 1) \div (-st) ELSE 0)
       IN Tab(cnt, LAMBDA i : lo + (i - 1) * st)
\* an integer index that does not exist
OutOfRange(n, it) == it.k = "i" /\ (it.v >= n \/ it.v < -n)
Selected(x, items) == Tab(ND(x), LAMBDA k : ItemIdx(x.rows[k], items[k]))
\* the value of one element restricted to the selected positions
Subgrid(v, rows, sel) ==
  LET lens == Map(sel, LAMBDA s : Len(s))
  IN Tab(ProdSeq(lens), LAMBDA q :
           LET g == Digits(q - 1, lens)
           IN v[Undigits(Tab(Len(rows), LAMBDA k : sel[k][g[k] + 1]), rows) + 1])
Kept(items) == SelectSeq(Tab(Len(items), LAMBDA k : k), LAMBDA k : items[k].k = "s")

SemSlice(x, items) ==          \* TensorTrain
  IF Len(items) # ND(x) THEN Err("ValueError")
  ELSE IF x.mat THEN Err("NotImplementedError")
  ELSE IF \E k \in DOMAIN items : OutOfRange(x.rows[k], items[k]) THEN Err("any")
  ELSE IF Kept(items) = <<>> THEN Free
  ELSE LET sel == Selected(x, items)
           kept == Kept(items)
           rows == Map(kept, LAMBDA k : Len(sel[k]))
       IN IF \E k \in DOMAIN sel : Len(sel[k]) = 0 THEN Free
          ELSE ObjD("tt", FALSE, x.dt, 1, rows, Const(Len(rows), 1), <<>>,
                    <<Subgrid(x.val[1], x.rows, sel)>>, x.den, x.mag)

SemSliceBatch(x, items) ==     \* TensorTrainBatch
  LET bsel == ItemIdx(x.bs, items[1])
      kind == IF items[1].k = "i" THEN "tt" ELSE "batch"
  IN IF Len(items) \notin {1, ND(x) + 1} THEN Err("ValueError")
     ELSE IF OutOfRange(x.bs, items[1]) THEN (IF Len(items) > 1 /\ x.mat THEN Free ELSE Err("any"))
     ELSE IF Len(bsel) = 0 THEN Free
     ELSE IF Len(items) = 1
     THEN ObjD(kind, x.mat, x.dt, Len(bsel), x.rows, x.cols, x.rk,
               Map(bsel, LAMBDA b : x.val[b + 1]), x.den, x.mag)
     ELSE IF x.mat THEN Err("NotImplementedError")
     ELSE IF \E k \in 1..ND(x) : OutOfRange(x.rows[k], items[k + 1]) THEN Err("any")
     ELSE IF Kept(Tail(items)) = <<>> THEN Free
     ELSE LET sel == Selected(x, Tail(items))
              rows == Map(Kept(Tail(items)), LAMBDA k : Len(sel[k]))
          IN IF \E k \in DOMAIN sel : Len(sel[k]) = 0 THEN Free
             ELSE ObjD(kind, FALSE, x.dt, Len(bsel), rows, Const(Len(rows), 1), <<>>,
                       Map(bsel, LAMBDA b : Subgrid(x.val[b + 1], x.rows, sel)), x.den, x.mag)

\* ish: shape of the index array, ix: its elements flattened
SemGather(x, ish, ix) ==
  LET w == ish[Len(ish)]
      need == ND(x) + (IF IsBatch(x) THEN 1 ELSE 0)
      osh == SubSeq(ish, 1, Len(ish) - 1)
  IN IF x.mat THEN Err("NotImplementedError")
     ELSE IF w # need THEN Err("ValueError")
     ELSE IF \E q \in DOMAIN ix : ix[q] >= (LET j == ((q - 1) % w) + 1
                                             IN IF ~IsBatch(x) THEN x.rows[j] ELSE IF j = 1 THEN x.bs ELSE x.rows[j - 1])
          THEN Err("any")
     ELSE ArrD(osh,
               Tab(ProdSeq(osh), LAMBDA q :
                     LET row == SubSeq(ix, (q - 1) * w + 1, q * w)
                     IN IF IsBatch(x) THEN x.val[row[1] + 1][Undigits(Tail(row), x.rows) + 1]
                        ELSE x.val[1][Undigits(row, x.rows) + 1]),
               x.den, x.mag, x.dt)

(***************************************************************************)
(* Value-preserving operations                                             *)
(***************************************************************************)
\* conversions that could expose rounding errors are only specified for
\* objects whose (integer) cores are exact
SemCast(x, dt) ==
  IF x.cores = <<>> /\ (dt \in {"i32", "i64"} \/ (x.dt = "f32" /\ dt = "f64")) THEN Free
  ELSE ObjD(x.kind, x.mat, dt, x.bs, x.rows, x.cols, x.rk, x.val, x.den, x.mag)

(***************************************************************************)
(* Sums                                                                    *)
(***************************************************************************)
SumObjs(xs, w) ==      \* sum_i w[i] * xs[i] per element (all of one batch size)
  Tab(xs[1].bs, LAMBDA b :
    Tab(Len(xs[1].val[1]), LAMBDA q :
          FoldLeftDomain(LAMBDA acc, i : acc + w[i] * xs[i].val[b][q], 0, xs)))
SumBatch(x, w) ==      \* sum_b w[b] * x.val[b]
  Tab(Len(x.val[1]), LAMBDA q :
        FoldLeftDomain(LAMBDA acc, b : acc + w[b] * x.val[b][q], 0, x.val))
=============================================================================
