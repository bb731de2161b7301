------------------------------ MODULE T3FMore -------------------------------
(***************************************************************************)
(* Approximate sums, Kronecker-product matrices, initializers and          *)
(* regularizers.                                                           *)
(***************************************************************************)
EXTENDS Riem

(***************************************************************************)
(* Approximate sums: exact when no partial sum of neighbouring summands    *)
(* needs more than the cap (this covers summation in a tree or in order).  *)
(***************************************************************************)
FormD(x, kind, bs, rkmax) ==
  [k |-> "form", kind |-> kind, mat |-> x.mat, dt |-> x.dt, bs |-> bs, rows |-> x.rows,
   cols |-> x.cols, rkmax |-> rkmax, val |-> <<>>, den |-> 1, mag |-> Lim]
\* terms: for each output element the sequence of its weighted summands
SumOf(x, kind, terms, cap, rkend, den, mag) ==
  LET n == Len(terms[1])
      d == ND(x)
      size == Len(terms[1][1])
      triv(k) == MinI(LeftSize(x.rows, x.cols, k - 1), RightSize(x.rows, x.cols, k - 1))
      rkmax == Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1 ELSE MinI(cap, triv(k)))
      part(t, i, j) == Tab(size, LAMBDA q : FoldSet(LAMBDA z, acc : acc + t[z][q], 0, i..j))
      fits == \A k \in 2..d :
                \/ cap >= triv(k)
                \/ cap >= rkend[k]
                \/ \A b \in DOMAIN terms : \A i \in 1..n : \A j \in i..n :
                     UnfRank(part(terms[b], i, j), x.rows, x.cols, k - 1) <= cap
  IN IF mag >= Lim THEN Big
     ELSE IF cap < 1 THEN Err("ValueError")
     ELSE IF fits THEN ObjD(kind, x.mat, x.dt, Len(terms), x.rows, x.cols, rkmax,
                            Tab(Len(terms), LAMBDA b : part(terms[b], 1, n)), den, mag)
     ELSE FormD(x, kind, Len(terms), rkmax)
RankSums(xs) == Tab(Len(xs[1].rk), LAMBDA k : SumSeq(Map(xs, LAMBDA y : y.rk[k])))
SemAddN(xs, cap) ==
  IF \E i \in DOMAIN xs : ~SameForm(xs[i], xs[1]) THEN Err("ValueError")
  ELSE IF \E i \in DOMAIN xs : xs[i].kind # xs[1].kind \/ xs[i].bs # xs[1].bs \/ xs[i].dt # xs[1].dt
                               \/ xs[i].den # xs[1].den \/ xs[i].val = <<>> THEN Free
  ELSE IF Len(xs) = 1 THEN Like(xs[1], xs[1].rk, xs[1].val, xs[1].den, xs[1].mag)
  ELSE SumOf(xs[1], xs[1].kind, Tab(xs[1].bs, LAMBDA b : Map(xs, LAMBDA y : y.val[b])), cap,
             RankSums(xs), xs[1].den, FoldLeft(LAMBDA acc, y : SatAdd(acc, SatMul(y.mag, 2)), 0, xs))
\* coefficients: none | vec v | mat (nr x n, row-major v) | cube
SemReduceSum(x, cap, cf) ==
  IF ~IsBatch(x) THEN Free
  ELSE IF cf.k = "cube" THEN Err("ValueError")
  ELSE IF cf.k = "mat" /\ cf.nr # x.bs THEN Err("ValueError")
  ELSE IF cf.k = "vec" /\ Len(cf.v) # x.bs THEN Free
  ELSE LET m == IF cf.k = "mat" THEN cf.n ELSE 1
           w(b, j) == CASE cf.k = "none" -> 1
                        [] cf.k = "vec" -> cf.v[b]
                        [] cf.k = "mat" -> cf.v[(b - 1) * cf.n + j]
           kind == IF cf.k = "mat" THEN "batch" ELSE "tt"
           top == IF cf.k = "none" THEN 1 ELSE AbsMax(cf.v) + 1
           mag == SatMul(x.mag, 2 * x.bs * top)
       IN IF mag >= Lim THEN Big
          ELSE LET terms == Tab(m, LAMBDA j : Tab(x.bs, LAMBDA b : DScale(w(b, j), x.val[b])))
               IN IF x.bs = 1
                  THEN ObjD(kind, x.mat, x.dt, m, x.rows, x.cols, x.rk,
                            Tab(m, LAMBDA j : terms[j][1]), x.den, mag)
                  ELSE SumOf(x, kind, terms, cap, Map(x.rk, LAMBDA r : r * x.bs), x.den, mag)

(***************************************************************************)
(* Kronecker products of square matrices.  The factors are the (integer)   *)
(* cores of the object where these are known.                              *)
(***************************************************************************)
IsKron(x) == x.mat /\ MaxSeq(x.rk) = 1
KronErr(x) == ~IsKron(x) \/ x.rows # x.cols
Factors(x, b) == Map(x.cores[b], LAMBDA c : c.e)
DetPow(x, k) == NN(x) \div x.rows[k]
KronDet(x, b) == ProdSeq(Tab(ND(x), LAMBDA k : Pow(Det(x.cores[b][k].e, x.rows[k]), DetPow(x, k))))
\* bound of a determinant: product of the row sums
DetMag(a, n) == ProdSeq(Tab(n, LAMBDA i : MaxI(1, MinI(AbsSum(SubSeq(a, (i - 1) * n + 1, i * n)), 1000))))
KronMag(x) == MaxSeq(Tab(x.bs, LAMBDA b :
                FoldLeft(LAMBDA acc, k : SatMul(acc, SatPow(DetMag(x.cores[b][k].e, x.rows[k]), DetPow(x, k))),
                         1, Tab(ND(x), LAMBDA k : k))))
SemKDet(x) ==
  IF KronErr(x) THEN Err("ValueError")
  ELSE IF x.cores = <<>> THEN
         (IF NN(x) > 4 \/ x.den # 1 \/ x.val = <<>> \/ x.mag > 30 THEN Free
          ELSE ArrD(BShape(x), Tab(x.bs, LAMBDA b : Det(x.val[b], NN(x))), 1, SatPow(x.mag + 1, 4), x.dt))
  ELSE IF KronMag(x) >= Lim THEN Big
  ELSE ArrD(BShape(x), Tab(x.bs, LAMBDA b : KronDet(x, b)), 1, KronMag(x), x.dt)
\* adjugate, transposed cofactors
Minor(a, n, i, j) == Tab((n - 1) * (n - 1), LAMBDA q :
  LET r == (q - 1) \div (n - 1) + 1
      c == ((q - 1) % (n - 1)) + 1
  IN a[((IF r < i THEN r ELSE r + 1) - 1) * n + (IF c < j THEN c ELSE c + 1)])
Adj(a, n) == Tab(n * n, LAMBDA q :
  LET i == (q - 1) \div n + 1
      j == ((q - 1) % n) + 1
  IN (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(a, n, j, i), n - 1))
SemKInv(x) ==
  IF KronErr(x) THEN Err("ValueError")
  ELSE IF x.cores = <<>> THEN Free
  ELSE IF KronMag(x) >= Lim THEN Big
  ELSE LET d == ND(x)
           det(b, k) == Det(x.cores[b][k].e, x.rows[k])
           Q == Tab(x.bs, LAMBDA b : ProdSeq(Tab(d, LAMBDA k : det(b, k))))
           adj(b) == Tab(d, LAMBDA k : Core(1, x.rows[k], x.rows[k], 1, Adj(x.cores[b][k].e, x.rows[k])))
           P == Tab(x.bs, LAMBDA b : DenseOf(adj(b)))
           top == MaxSeq(Tab(x.bs, LAMBDA b : MaxI(Abs(Q[b]), AbsMax(P[b]))))
       IN IF \E b \in 1..x.bs : Q[b] = 0 THEN Free
          ELSE IF top > 12000 THEN Big
          ELSE [k |-> "ratio", kind |-> x.kind, mat |-> TRUE, dt |-> x.dt, bs |-> x.bs, rows |-> x.rows,
                cols |-> x.cols, rkmax |-> x.rk, P |-> P, Q |-> Q, mag |-> KronMag(x)]
\* p / q at scale S (q # 0, |q| S < 2^31), rounded towards the nearest
RatioFx(p, q, S) == LET a == Abs(p)
                        c == Abs(q)
                        v == (a \div c) * S + DivRound((a % c) * S, c)
                    IN IF (p < 0) # (q < 0) THEN -v ELSE v
JudgeRatio(e, ev, dyn) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE LET f == JudgeForm(e, ev.r, dyn)
           S == 16384
           tol == IF e.dt = "f32" THEN 8 + MinI(e.mag, 2000) ELSE 3
       IN IF f # <<>> THEN f
          ELSE IF ev.r.bad THEN <<"value_not_finite">>
          ELSE Clause(Len(ev.r.v) = e.bs /\ \A b \in 1..e.bs :
                        /\ Len(ev.r.v[b]) = Len(e.P[b])
                        /\ \A i \in DOMAIN e.P[b] :
                             LET s == MinI(S, ev.r.S)
                             IN Abs(DivRound(ev.r.v[b][i], ev.r.S \div s) - RatioFx(e.P[b][i], e.Q[b], s)) <= tol,
                      "value")
SettleRatio(e, ev) ==
  IF \A b \in 1..e.bs : Abs(e.Q[b]) = 1
  THEN [kind |-> e.kind, mat |-> TRUE, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows, cols |-> e.cols,
        rk |-> ev.r.ark, val |-> Tab(e.bs, LAMBDA b : DScale(e.Q[b], e.P[b])), den |-> 1,
        mag |-> SatMul(MaxSeq(Tab(e.bs, LAMBDA b : AbsMax(e.P[b]))), 4), cores |-> <<>>]
  ELSE Nil
\* integer Cholesky factor of an n x n matrix, <<>> if there is none
ISqrt(v) == IF v < 0 THEN -1 ELSE CHOOSE s \in -1..200 : (s >= 0 /\ s * s = v) \/ (s = -1 /\ \A t \in 0..200 : t * t # v)
CholInt(a, n) ==
  LET at(L, i, j) == L[(i - 1) * n + j]
      step(L, q) ==
        LET i == (q - 1) \div n + 1
            j == ((q - 1) % n) + 1
            s == a[q] - Sum(j - 1, LAMBDA t : at(L, i, t) * at(L, j, t))
        IN IF L = <<>> THEN L
           ELSE IF j > i THEN L
           ELSE IF i = j THEN LET z == ISqrt(s) IN IF z <= 0 THEN <<>> ELSE [L EXCEPT ![q] = z]
           ELSE IF s % at(L, j, j) # 0 THEN <<>>
           ELSE [L EXCEPT ![q] = s \div at(L, j, j)]
      sym == \A i, j \in 1..n : a[(i - 1) * n + j] = a[(j - 1) * n + i]
      \* column by column of the rows above is done: row-major order suffices
  IN IF ~sym THEN <<>> ELSE FoldLeft(step, Const(n * n, 0), Tab(n * n, LAMBDA q : q))
SemKChol(x) ==
  IF KronErr(x) THEN Err("ValueError")
  ELSE IF x.cores = <<>> THEN Free
  ELSE LET L == Tab(x.bs, LAMBDA b : Tab(ND(x), LAMBDA k : CholInt(x.cores[b][k].e, x.rows[k])))
       IN IF \E b \in 1..x.bs : \E k \in 1..ND(x) : L[b][k] = <<>> THEN Free
          ELSE LET cs == Tab(x.bs, LAMBDA b : Tab(ND(x), LAMBDA k : Core(1, x.rows[k], x.rows[k], 1, L[b][k])))
               IN ObjD(x.kind, TRUE, x.dt, x.bs, x.rows, x.cols, x.rk,
                       Tab(x.bs, LAMBDA b : DenseOf(cs[b])), 1,
                       SatMul(8, MaxSeq(Tab(x.bs, LAMBDA b : MagOf(cs[b])))))

(***************************************************************************)
(* Initializers.  c.rows / c.cols may contain numbers that are not mode    *)
(* sizes; c.rnone / c.cnone: that side is given as None; c.frac: the kind  *)
(* of argument that is given as a fraction ("" for none); c.rkk: TT-rank   *)
(* "default", "num" or "vec" in c.rkv; c.bsk/c.bsv batch size;             *)
(* c.mean # 0: non-zero mean; c.nest: a shape of the wrong nesting.        *)
(***************************************************************************)
MatInit == {"matrix_ones", "matrix_zeros", "matrix_with_random_cores", "matrix_batch_with_random_cores",
            "random_matrix", "random_matrix_batch", "glorot_initializer", "he_initializer", "lecun_initializer"}
BatchInit == {"tensor_batch_with_random_cores", "matrix_batch_with_random_cores", "random_tensor_batch",
              "random_matrix_batch"}
ConstInit == {"tensor_ones", "tensor_zeros", "eye", "matrix_ones", "matrix_zeros"}
MeanZero == {"random_tensor", "random_tensor_batch", "random_matrix", "random_matrix_batch"}
InitModes(c) ==
  LET d == IF c.rnone THEN Len(c.cols) ELSE Len(c.rows)
  IN [rows |-> IF c.rnone THEN Const(d, 1) ELSE c.rows,
      cols |-> IF c.f \in MatInit THEN (IF c.cnone THEN Const(d, 1) ELSE c.cols)
               ELSE IF c.f = "eye" THEN c.rows ELSE Const(d, 1)]
InitBad(c) ==
  LET m == InitModes(c)
      d == Len(m.rows)
  IN \/ c.frac # "" \/ c.nest
     \/ Len(m.rows) # Len(m.cols)
     \/ \E k \in 1..d : m.rows[k] < 1
     \/ \E k \in DOMAIN m.cols : m.cols[k] < 1
     \/ c.f \notin ConstInit /\ c.rkk = "num" /\ c.rkv[1] < 1
     \/ c.f \notin ConstInit /\ c.rkk = "vec" /\ (Len(c.rkv) # d + 1 \/ \E k \in DOMAIN c.rkv : c.rkv[k] < 1)
     \/ c.f \in BatchInit /\ c.bsk = "num" /\ c.bsv < 1
InitRanks(c, d) ==
  Tab(d + 1, LAMBDA k :
    IF c.f \in ConstInit THEN 1
    ELSE IF c.rkk = "vec" THEN c.rkv[k]
    ELSE IF k = 1 \/ k = d + 1 THEN 1
    ELSE IF c.rkk = "num" THEN c.rkv[1] ELSE 2)
SemInit(c) ==
  IF c.rnone /\ c.cnone THEN Free
  ELSE IF InitBad(c) THEN Err("ValueError")
  ELSE IF c.mean # 0 /\ c.f \in MeanZero THEN Err("NotImplementedError")
  ELSE LET m == InitModes(c)
           d == Len(m.rows)
           rk == InitRanks(c, d)
           kind == IF c.f \in BatchInit THEN "batch" ELSE "tt"
           bs == IF c.f \in BatchInit /\ c.bsk = "num" THEN c.bsv ELSE 1
           dt == IF c.dt = "default" THEN "f32" ELSE c.dt
           mat == c.f \in MatInit \cup {"eye"}
           N == ProdSeq(m.rows)
           M == ProdSeq(m.cols)
           v == CASE c.f \in {"tensor_ones", "matrix_ones"} -> Const(N * M, 1)
                  [] c.f \in {"tensor_zeros", "matrix_zeros"} -> Const(N * M, 0)
                  [] OTHER -> DIdentity(N)
       IN IF rk[1] # 1 \/ rk[d + 1] # 1 THEN Free
          ELSE IF c.f \in ConstInit THEN ObjD(kind, mat, dt, 1, m.rows, m.cols, rk, <<v>>, 1, 1)
          ELSE [k |-> "form", kind |-> kind, mat |-> mat, dt |-> dt, bs |-> bs, rows |-> m.rows,
                cols |-> m.cols, rkmax |-> rk, val |-> <<>>, den |-> 1, mag |-> Lim]
\* ones_like, zeros_like
SemLikeInit(x, one) ==
  IF IsBatch(x) THEN Free
  ELSE ObjD("tt", x.mat, x.dt, 1, x.rows, x.cols, Const(ND(x) + 1, 1),
            <<Const(Num(x), IF one THEN 1 ELSE 0)>>, 1, 1)
ExactRanks(c, e, ev) ==
  IF e.k \in {"obj", "form"} /\ ev.ok /\ ev.r.t \in {"tt", "batch"}
  THEN Clause(ev.r.ark = e.rkmax, "ranks") ELSE <<>>

(***************************************************************************)
(* Moments of random initializers, estimated by the recorder from many     *)
(* draws: mean and mean square of the entries of the dense values (or of   *)
(* each core), in scale S.  sd = c.sn / c.sd.                              *)
(***************************************************************************)
\* m2 / S within pc % of p / q, and mean^2 <= 9 % of it
MomentOK(m1, m2, S, p, q, mean, den, pc) ==
  LET s == MinI(S, 4096)
      a == DivRound(m2, S \div s)
      b == DivRound(m1, S \div s) - (mean * s) \div den
      want == (p * s) \div q
  IN /\ a >= 0 /\ a <= 20000000 /\ Abs(b) <= 40000
     /\ 100 * a <= (100 + pc) * want + 100 /\ 100 * a + 100 >= (100 - pc) * want
     /\ (b * b) \div s <= want \div 11 + 2
VarOf(c) ==       \* <<p, q>>: the variance of an entry
  LET N == IF c.rnone THEN 1 ELSE ProdSeq(c.rows)
      M == IF c.cnone THEN 1 ELSE ProdSeq(c.cols)
  IN CASE c.f = "glorot_initializer" -> <<2, N + M>>
       [] c.f = "he_initializer" -> <<2, N>>
       [] c.f = "lecun_initializer" -> <<1, N>>
       [] c.f = "keras" -> (CASE c.ki \in {"glorot", "default"} -> <<2, N + M>>
                              [] c.ki = "he" -> <<2, N>>
                              [] c.ki = "lecun" -> <<1, N>>)
       [] c.sd = 0 -> <<1, 1>>       \* not given
       [] OTHER -> <<c.sn * c.sn, c.sd * c.sd>>
\* the recorder scales the draws by c.up (an integer) to keep digits
JudgeMoments(c, ev) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE IF ev.bad THEN <<"value_not_finite">>
  ELSE LET v == VarOf(c)
           q == c.up * c.up
           pc == IF c.cores \/ Len(c.rows) = 1 THEN 18 ELSE 30     \* normal or products of normals
       IN IF c.cores
          THEN \* cores ~ N(mean, sd^2): mean and variance of the entries of each core
               Clause(\A k \in DOMAIN ev.m2 : MomentOK(ev.m1[k], ev.m2[k], ev.S, v[1] * q, v[2], c.mean * c.up, 1, pc), "moments")
          ELSE Clause(MomentOK(ev.m1[1], ev.m2[1], ev.S, v[1] * q, v[2], 0, 1, pc), "moments")
       \o Clause(ev.distinct, "draws_not_distinct")

(***************************************************************************)
(* Regularizers.  scale = c.num / c.den given as c.st.                     *)
(***************************************************************************)
\* the value of a penalty on one core
CorePen(f, e) == CASE f = "sumsq" -> DDot(e, e)
                   [] f = "sumabs" -> AbsSum(e)
                   [] f = "sum" -> SumSeq(e)
                   [] f = "max" -> AbsMax(e)
ScaleErr(c) == c.st \in {"int", "npint", "bool"} \/ c.num < 0
SemReg(c, x) ==
  IF ScaleErr(c) THEN Err("ValueError")
  ELSE IF c.num = 0 THEN [k |-> "none"]
  ELSE IF c.f = "l2"
  THEN LET e == SemNorm2(x)
       IN IF e.k # "num" THEN e
          ELSE ArrD(e.shp, DScale(c.num, e.val), e.den * c.den, SatMul(e.mag, c.num), x.dt)
  ELSE IF x.cores = <<>> THEN Free
  ELSE LET pen == Sum(x.bs, LAMBDA b : Sum(ND(x), LAMBDA k : CorePen(c.f, x.cores[b][k].e)))
           top == Sum(ND(x), LAMBDA k : MaxSeq(Tab(x.bs, LAMBDA b : CorePen("max", x.cores[b][k].e))))
           mag == Sum(x.bs, LAMBDA b : Sum(ND(x), LAMBDA k : CorePen("sumsq", x.cores[b][k].e)))
       IN ArrD(<<>>, <<c.num * (IF c.f = "max" THEN top ELSE pen)>>, c.den, SatMul(mag, c.num), x.dt)
=============================================================================
