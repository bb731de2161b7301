-------------------------------- MODULE Riem --------------------------------
(***************************************************************************)
(* Tangent spaces of the manifold of fixed TT-rank.                        *)
(*                                                                         *)
(* For a point x (a tensor over the combined modes p_1 .. p_d) with        *)
(* unfoldings X_k let A_k be the orthogonal projector on the column space  *)
(* of X_k (acting on the first k modes) and B_k the one on its row space   *)
(* (acting on the last d-k modes).  The tangent space is                   *)
(*    T_x = Sum_{k=1..d} range(A_{k-1} (x) I (x) B_k)                      *)
(* All A_k, B_k commute and are nested, hence w is in T_x iff              *)
(*    (I - A_k) w (I - B_k) = 0  for k = 1..d-1                            *)
(* and w is orthogonal to T_x iff A_{k-1} w B_k = 0 for k = 1..d.  Both    *)
(* are decided with integer bases of the four spaces of every unfolding.   *)
(* Only points whose unfoldings have the full rank their representation    *)
(* allows are specified (elsewhere the manifold has no tangent space).     *)
(***************************************************************************)
EXTENDS T3FNum

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GcdSeq(s) == FoldLeft(LAMBDA acc, x : Gcd(Abs(x), acc), 0, s)
Primitive(s) == LET g == GcdSeq(s) IN IF g <= 1 THEN s ELSE Map(s, LAMBDA x : IF x < 0 THEN -((-x) \div g) ELSE x \div g)

EntryLim == 30000
(***************************************************************************)
(* Fraction-free reduced row echelon form of an n x m matrix given as a    *)
(* sequence of rows; ok is FALSE when numbers got too large.               *)
(***************************************************************************)
RowReduce(rows, n, m) ==
  LET elim(row, prow, col) ==
        LET g == Gcd(Abs(row[col]), Abs(prow[col]))
            a == prow[col] \div g
            b == IF row[col] < 0 THEN -((-row[col]) \div g) ELSE row[col] \div g
        IN IF row[col] = 0 THEN row
           ELSE Primitive(Tab(m, LAMBDA j : a * row[j] - b * prow[j]))
      step(st, col) ==
        IF ~st.ok \/ st.r = n THEN st
        ELSE LET cand == {i \in (st.r + 1)..n : st.rows[i][col] # 0}
             IN IF cand = {} THEN st
                ELSE LET p == CHOOSE i \in cand : \A j \in cand : Abs(st.rows[i][col]) <= Abs(st.rows[j][col])
                         prow0 == Primitive(st.rows[p])
                         prow == IF prow0[col] < 0 THEN DScale(-1, prow0) ELSE prow0
                         q == st.r + 1
                         nrows == Tab(n, LAMBDA i :
                                    IF i = q THEN prow
                                    ELSE elim(IF i = p THEN st.rows[q] ELSE st.rows[i], prow, col))
                     IN [ok |-> \A i \in 1..n : AbsMax(nrows[i]) <= EntryLim,
                         r |-> q, rows |-> nrows, piv |-> Append(st.piv, col)]
      start == [ok |-> \A i \in 1..n : AbsMax(rows[i]) <= EntryLim, r |-> 0, rows |-> rows, piv |-> <<>>]
  IN FoldLeft(step, start, Tab(m, LAMBDA j : j))
\* integer basis of the row space and of its orthogonal complement
RowSpaces(rows, n, m) ==
  LET st == RowReduce(rows, n, m)
      lcm(a, b) == IF a > EntryLim THEN a ELSE (a \div Gcd(a, b)) * b
      L == FoldLeft(LAMBDA acc, j : lcm(acc, st.rows[j][st.piv[j]]), 1, Tab(st.r, LAMBDA j : j))
      basis == SubSeq(st.rows, 1, st.r)
      free == SelectSeq(Tab(m, LAMBDA j : j), LAMBDA j : \A i \in DOMAIN st.piv : st.piv[i] # j)
      nul(f) == Primitive(Tab(m, LAMBDA j :
                  IF j = f THEN L
                  ELSE LET i == {t \in DOMAIN st.piv : st.piv[t] = j}
                       IN IF i = {} THEN 0
                          ELSE LET t == CHOOSE t \in i : TRUE
                               IN -(st.rows[t][f] * (L \div st.rows[t][j]))))
  IN IF ~st.ok \/ L > EntryLim THEN [ok |-> FALSE]
     ELSE LET ns == Map(free, LAMBDA f : nul(f))
          IN [ok |-> /\ \A i \in DOMAIN basis : AbsSum(basis[i]) <= 60000
                     /\ \A i \in DOMAIN ns : AbsSum(ns[i]) <= 60000,
              r |-> st.r, basis |-> basis, nul |-> ns]
\* the four spaces of the unfolding v (L x R)
Frame(v, L, R) ==
  LET row == RowSpaces(Tab(L, LAMBDA i : SubSeq(v, (i - 1) * R + 1, i * R)), L, R)
      col == RowSpaces(Tab(R, LAMBDA j : Tab(L, LAMBDA i : v[(i - 1) * R + j])), R, L)
  IN IF ~row.ok \/ ~col.ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, r |-> row.r, row |-> row.basis, rown |-> row.nul,
           col |-> col.basis, coln |-> col.nul]

\* what orthogonalization in both directions leaves of the ranks
Trimmed(rk, p) ==
  LET d == Len(p)
      fromright == FoldRight(LAMBDA k, acc : <<IF k = d + 1 THEN 1 ELSE MinI(rk[k], p[k] * acc[1])>> \o acc,
                             Tab(d, LAMBDA k : k), <<1>>)
      fromleft == FoldLeft(LAMBDA acc, k : Append(acc, MinI(fromright[k + 1], acc[Len(acc)] * p[k])),
                           <<1>>, Tab(d, LAMBDA k : k))
  IN fromleft

(***************************************************************************)
(* A point: its unfolding frames, or ok = FALSE                            *)
(***************************************************************************)
PointOf(x) ==
  LET p == Modes(x.rows, x.cols)
      d == Len(p)
      v == Weave(x.val[1], x.rows, x.cols)
      t == Trimmed(x.rk, p)
      fr == Tab(d - 1, LAMBDA k : Frame(v, ProdSeq(SubSeq(p, 1, k)), ProdSeq(SubSeq(p, k + 1, d))))
      ok == \A k \in 1..(d - 1) : fr[k].ok /\ fr[k].r = t[k + 1]
  IN IF d < 2 \/ x.val = <<>> \/ x.kind # "tt" THEN [ok |-> FALSE]
     ELSE IF ~ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, p |-> p, d |-> d, fr |-> fr]

(***************************************************************************)
(* Fixed-point vectors [S, v] stand for v / S (S a power of two).  They    *)
(* are compared at a scale s where everything is below 2^15.               *)
(***************************************************************************)
Fx(S, v) == [S |-> S, v |-> v]
UnitMax == 32768
AtScale(f, s) == IF f.S >= s THEN Map(f.v, LAMBDA z : DivRound(z, f.S \div s))
                 ELSE Map(f.v, LAMBDA z : z * (s \div f.S))
\* largest power of two s <= 2^15 with |f| s <= 2^15
FxScale(f) ==
  LET m == AbsMax(f.v)
      fits(s) == IF f.S >= s THEN DivRound(m, f.S \div s) <= UnitMax ELSE m <= UnitMax \div (s \div f.S)
      good == {i \in 0..15 : fits(Pow(2, i))}
  IN IF good = {} THEN 0 ELSE Pow(2, CHOOSE i \in good : \A j \in good : j <= i)
\* w is L x n x R; u-weighted mean over L, v-weighted mean over R
PairNull(w, L, n, R, u, v, tol) ==
  LET su == MaxI(1, AbsSum(u))
      sv == MaxI(1, AbsSum(v))
      a == Tab(n * R, LAMBDA q :
             DivRound(FoldLeftDomain(LAMBDA acc, l : acc + u[l] * w[(l - 1) * n * R + q], 0, u), su))
  IN \A i \in 1..n :
       Abs(FoldLeftDomain(LAMBDA acc, r : acc + v[r] * a[(i - 1) * R + r], 0, v)) <= (tol + 1) * sv
SizeTo(p, k) == ProdSeq(SubSeq(p, 1, k))
SizeFrom(p, k) == ProdSeq(SubSeq(p, k + 1, Len(p)))
InTangent(P, w, tol) ==
  \A k \in 1..(P.d - 1) : \A i \in DOMAIN P.fr[k].coln : \A j \in DOMAIN P.fr[k].rown :
    PairNull(w, SizeTo(P.p, k), 1, SizeFrom(P.p, k), P.fr[k].coln[i], P.fr[k].rown[j], tol)
OrthTangent(P, w, tol) ==
  \A k \in 1..P.d :
    LET U == IF k = 1 THEN << <<1>> >> ELSE P.fr[k - 1].col
        V == IF k = P.d THEN << <<1>> >> ELSE P.fr[k].row
    IN \A i \in DOMAIN U : \A j \in DOMAIN V :
         PairNull(w, SizeTo(P.p, k - 1), P.p[k], SizeFrom(P.p, k), U[i], V[j], tol)
TanTol(dt) == IF dt = "f32" THEN 400 ELSE 2

\* observed vector o / S is the projection of z (a fixed-point vector)
ProjClauses(P, rows, cols, z, o, S, dt, mg) ==
  LET zo == Fx(z.S, Weave(z.v, rows, cols))
      oo == Fx(S, Weave(o, rows, cols))
      s == MinI(MinI(MinI(FxScale(zo), FxScale(oo)), IF z.S = 1 THEN UnitMax ELSE z.S),
                IF dt = "f32" THEN FxScale(Fx(1, <<mg>>)) ELSE UnitMax)
      zs == AtScale(zo, s)
      os == AtScale(oo, s)
  IN IF Len(o) # Len(z.v) THEN <<"value">>
     ELSE IF s = 0 THEN <<"projection_orthogonality">>
     ELSE Clause(InTangent(P, os, TanTol(dt)), "not_in_tangent_space")
          \o Clause(OrthTangent(P, DSub(zs, os), TanTol(dt)), "projection_orthogonality")

(***************************************************************************)
(* Expected outcomes "tan": the projection of z[b] on the tangent space at *)
(* the object in register pt, for every output element b.                  *)
(***************************************************************************)
ZLim == 3000
IsTan(x) == Has(x, "tan")
\* the element b of x as a fixed-point vector; elements of the tangent space
\* at pt are represented by what they are projections of
PreImage(x, b, pt) ==
  IF IsTan(x) THEN (IF x.tan.pt = pt THEN x.tan.z[b] ELSE Fx(x.tan.S, x.tan.o[b]))
  ELSE Fx(1, x.val[b])
FxSmall(f) == AbsMax(f.v) \div f.S <= ZLim
TanRanks(x) == Tab(Len(x.rk), LAMBDA k : IF k = 1 \/ k = Len(x.rk) THEN 1 ELSE 2 * x.rk[k])
\* mg: bound of the magnitudes met on the way (numeric tolerance only)
TanMag(w) == IF IsTan(w) THEN MaxSeq(Map(w.tan.z, LAMBDA f : AbsMax(f.v) \div f.S + 1)) ELSE w.mag
TanD(kind, x, bs, pt, z, mg) ==
  IF (\E b \in DOMAIN z : ~FxSmall(z[b])) \/ (x.dt = "f32" /\ mg > UnitMax) THEN Big
  ELSE LET P == PointOf(x)
       IN IF ~P.ok THEN Free
          ELSE [k |-> "tan", kind |-> kind, mat |-> x.mat, dt |-> x.dt, bs |-> bs, rows |-> x.rows,
                cols |-> x.cols, rkmax |-> TanRanks(x), pt |-> pt, P |-> P, z |-> z, mg |-> mg]
Usable(w) == IsTan(w) \/ w.den = 1
\* sums with integer weights; fixed-point operands are brought to 2^12 and
\* the sum to 2^9, which leaves rounding errors below one unit
FxLin(fs, w) ==
  LET exact == \A i \in DOMAIN fs : fs[i].S = 1
      gs == Map(fs, LAMBDA f : IF exact THEN f.v ELSE AtScale(f, 4096))
      sum == Tab(Len(gs[1]), LAMBDA q : FoldLeftDomain(LAMBDA acc, i : acc + w[i] * gs[i][q], 0, gs))
  IN IF \/ \E i \in DOMAIN fs : ~FxSmall(fs[i]) \/ (fs[i].S # 1 /\ fs[i].S < 4096)
        \/ AbsSum(w) > 12 THEN Fx(1, <<ZLim + 1>>)
     ELSE IF exact THEN Fx(1, sum) ELSE Fx(512, Map(sum, LAMBDA z : DivRound(z, 8)))

SemProject(w, x, pt) ==
  IF x.kind # "tt" \/ ~SameForm(w, x) \/ w.dt # x.dt THEN Err("ValueError")
  ELSE IF ~Usable(w) THEN Free
  ELSE TanD(w.kind, x, w.bs, pt, Tab(w.bs, LAMBDA b : PreImage(w, b, pt)), TanMag(w))
\* wt: [k |-> "none"] | "vec" with v | "mat" with v (bs x n, row-major) and n
SemProjectSum(w, x, pt, wt) ==
  IF x.kind # "tt" \/ ~SameForm(w, x) \/ w.dt # x.dt THEN Err("ValueError")
  ELSE IF ~Usable(w) THEN Free
  ELSE LET fs == Tab(w.bs, LAMBDA b : PreImage(w, b, pt))
       IN CASE wt.k = "none" -> TanD("tt", x, 1, pt, <<FxLin(fs, Const(w.bs, 1))>>, SatMul(TanMag(w), w.bs))
            [] wt.k = "vec" -> IF Len(wt.v) # w.bs THEN Free
                               ELSE TanD("tt", x, 1, pt, <<FxLin(fs, wt.v)>>, SatMul(TanMag(w), AbsSum(wt.v)))
            [] wt.k = "mat" -> IF Len(wt.v) # w.bs * wt.n THEN Free
                               ELSE TanD("batch", x, wt.n, pt,
                                         Tab(wt.n, LAMBDA j : FxLin(fs, Tab(w.bs, LAMBDA b : wt.v[(b - 1) * wt.n + j]))),
                                         SatMul(TanMag(w), AbsSum(wt.v)))
SemProjectMatmul(w, x, A, pt) ==
  IF x.kind # "tt" \/ ~SameForm(w, x) \/ w.dt # x.dt THEN Err("ValueError")
  ELSE IF ~x.mat \/ ~A.mat \/ A.kind # "tt" \/ A.dt # w.dt THEN Free
  ELSE IF A.rows # w.rows \/ A.cols # w.rows THEN Err("any")
  ELSE IF IsTan(w) \/ IsTan(A) \/ w.den # 1 \/ A.den # 1 THEN Free
  ELSE IF SatMul(SatMul(w.mag, A.mag), MM(A)) >= Lim THEN Big
  ELSE TanD(w.kind, x, w.bs, pt,
            Tab(w.bs, LAMBDA b : Fx(1, DMatMul(A.val[1], w.val[b], NN(A), MM(A), MM(w)))), SatMul(SatMul(w.mag, A.mag), MM(A)))
\* xs: registers; coefficients as above (mat: one row per object, n columns)
SemAddProjected(xs, cf, R) ==
  IF \E i \in DOMAIN xs : ~IsTan(xs[i]) THEN Err("ValueError")
  ELSE IF \E i \in DOMAIN xs : xs[i].tan.pt # xs[1].tan.pt THEN Err("ValueError")
  ELSE IF \E i \in DOMAIN xs : xs[i].kind # xs[1].kind \/ xs[i].bs # xs[1].bs THEN Free
  ELSE LET pt == xs[1].tan.pt
           bs == xs[1].bs
           n == Len(xs)
           w(b) == CASE cf.k = "none" -> Const(n, 1)
                     [] cf.k = "vec" -> cf.v
                     [] cf.k = "mat" -> Tab(n, LAMBDA i : cf.v[(i - 1) * bs + b])
       IN IF cf.k = "vec" /\ Len(cf.v) # n THEN Free
          ELSE IF cf.k = "mat" /\ (xs[1].kind # "batch" \/ Len(cf.v) # n * bs) THEN Free
          ELSE LET e == TanD(xs[1].kind, R[pt], bs, pt,
                             Tab(bs, LAMBDA b : FxLin(Tab(n, LAMBDA i : xs[i].tan.z[b]), w(b))),
                             MaxSeq(Map(xs, LAMBDA y : SatMul(TanMag(y), 4 * n))))
               IN IF e.k # "tan" THEN e ELSE [e EXCEPT !.rkmax = xs[1].rk]
SemDeltas(x, y, i, R) ==     \* to deltas and back at register i
  IF ~IsTan(x) THEN Err("ValueError")
  ELSE IF x.tan.pt # i THEN Free
  ELSE TanD(x.kind, R[i], x.bs, i, x.tan.z, TanMag(x))

\* inner products: numbers judged against the recorded elements
TanNum(shp, dt) == [k |-> "tannum", shp |-> shp, dt |-> dt]
SemPairProjected(x, y) ==
  IF ~IsTan(x) \/ ~IsTan(y) THEN Err("ValueError")
  ELSE IF x.tan.pt # y.tan.pt THEN Err("ValueError")
  ELSE TanNum(<<x.bs, y.bs>>, x.dt)
SemTanFull(x) == IF ~IsTan(x) THEN Free ELSE TanNum(BShape(x) \o DenseShape(x), x.dt)
SemTanInner(x, y) ==        \* flat_inner of two elements (tangent or not)
  IF ~IsTan(x) \/ ~SameForm(x, y) \/ Bc(x, y) = 0 \/ x.dt # y.dt \/ (~IsTan(y) /\ y.den # 1) THEN Free
  ELSE TanNum(IF BcKind(x, y) = "batch" THEN <<Bc(x, y)>> ELSE <<>>, x.dt)

(***************************************************************************)
(* Scalar functions of a TT object for automatic differentiation: a        *)
(* combination of parts, each with its exact value, gradient and Hessian   *)
(* on integers.  x, a, .. are N x M matrices (M = 1 for tensors).          *)
(*   inner(a) <x,a>      norm2 <x,x>      quad(A) x'Ax      had(a) <x.x,a> *)
(*   cube <x.x,x>        dist(a) |x+s a|^2        mm(A,b) <Ax,b>           *)
(*   gram(C) <x'x,C>     gather(ix,w), fullw(w), sparse(ix,w) sums of w x  *)
(* combined as "lin" (weighted sum), "prod" (of the first two) or "sq".    *)
(***************************************************************************)
Basis(n, i) == Tab(n, LAMBDA j : IF j = i THEN 1 ELSE 0)
WeightsAt(n, ix, w) ==       \* dense vector of the weights at the 1-based positions ix
  Tab(n, LAMBDA j : FoldLeftDomain(LAMBDA acc, t : acc + (IF ix[t] = j THEN w[t] ELSE 0), 0, ix))
PartOk(p, x, R) ==
  LET arg == p.p \in {"inner", "quad", "had", "dist", "mm", "gram"}
  IN /\ arg => (R[p.a[1]].kind = "tt" /\ ~IsTan(R[p.a[1]]) /\ R[p.a[1]].den = 1 /\ R[p.a[1]].dt = x.dt
                /\ R[p.a[1]].mag < 4000)
     /\ p.p \in {"inner", "had", "dist"} => SameForm(R[p.a[1]], x)
     /\ p.p = "quad" => (x.mat /\ R[p.a[1]].mat /\ MM(x) = 1 /\ (\A k \in DOMAIN x.cols : x.cols[k] = 1)
                         /\ R[p.a[1]].rows = x.rows /\ R[p.a[1]].cols = x.rows)
     /\ p.p = "mm" => (x.mat /\ R[p.a[1]].mat /\ R[p.a[1]].cols = x.rows /\ R[p.a[2]].mat
                       /\ R[p.a[2]].rows = R[p.a[1]].rows /\ R[p.a[2]].cols = x.cols
                       /\ R[p.a[2]].dt = x.dt /\ R[p.a[2]].den = 1 /\ R[p.a[2]].mag < 4000
                       /\ R[p.a[2]].kind = "tt" /\ ~IsTan(R[p.a[2]]))
     /\ p.p = "gram" => (x.mat /\ R[p.a[1]].mat /\ R[p.a[1]].rows = x.cols /\ R[p.a[1]].cols = x.cols)
     /\ p.p = "gather" => ~x.mat
     /\ p.p \in {"gather", "sparse", "fullw"} => \A t \in DOMAIN p.ix : p.ix[t] \in 1..(NN(x) * MM(x))
PVal(p, x, R) ==
  LET v == x.val[1]
      a == R[p.a[1]].val[1]
      n == Len(v)
  IN CASE p.p = "inner" -> DDot(v, a)
       [] p.p \in {"norm2", "frob2"} -> DDot(v, v)
       [] p.p = "quad" -> DDot(v, DMatMul(a, v, n, n, 1))
       [] p.p = "had" -> DDot(DHad(v, v), a)
       [] p.p = "cube" -> DDot(DHad(v, v), v)
       [] p.p = "dist" -> LET w == DAdd(v, DScale(p.s, a)) IN DDot(w, w)
       [] p.p = "mm" -> DDot(DMatMul(a, v, NN(R[p.a[1]]), NN(x), MM(x)), R[p.a[2]].val[1])
       [] p.p = "gram" -> DDot(DMatMul(DTrans(v, NN(x), MM(x)), v, MM(x), NN(x), MM(x)), a)
       [] p.p \in {"gather", "sparse", "fullw"} -> DDot(v, WeightsAt(n, p.ix, p.w))
PGrad(p, x, R) ==
  LET v == x.val[1]
      a == R[p.a[1]].val[1]
      n == Len(v)
  IN CASE p.p = "inner" -> a
       [] p.p \in {"norm2", "frob2"} -> DScale(2, v)
       [] p.p = "quad" -> DMatMul(DAdd(a, DTrans(a, n, n)), v, n, n, 1)
       [] p.p = "had" -> DScale(2, DHad(v, a))
       [] p.p = "cube" -> DScale(3, DHad(v, v))
       [] p.p = "dist" -> DScale(2, DAdd(v, DScale(p.s, a)))
       [] p.p = "mm" -> DMatMul(DTrans(a, NN(R[p.a[1]]), NN(x)), R[p.a[2]].val[1],
                                NN(x), NN(R[p.a[1]]), MM(x))
       [] p.p = "gram" -> DMatMul(v, DAdd(a, DTrans(a, MM(x), MM(x))), NN(x), MM(x), MM(x))
       [] p.p \in {"gather", "sparse", "fullw"} -> WeightsAt(n, p.ix, p.w)
\* row i of the Hessian
PHess(p, x, R, i) ==
  LET v == x.val[1]
      a == R[p.a[1]].val[1]
      n == Len(v)
      M == MM(x)
  IN CASE p.p \in {"norm2", "frob2", "dist"} -> DScale(2, Basis(n, i))
       [] p.p = "quad" -> Tab(n, LAMBDA j : a[(i - 1) * n + j] + a[(j - 1) * n + i])
       [] p.p = "had" -> DScale(2 * a[i], Basis(n, i))
       [] p.p = "cube" -> DScale(6 * v[i], Basis(n, i))
       [] p.p = "gram" -> Tab(n, LAMBDA j :
             IF (i - 1) \div M # (j - 1) \div M THEN 0
             ELSE LET q == ((i - 1) % M) + 1
                      r == ((j - 1) % M) + 1
                  IN a[(r - 1) * M + q] + a[(q - 1) * M + r])
       [] OTHER -> Const(n, 0)
PMag(p, x, R) ==             \* bound of value, gradient and Hessian entries times size
  LET m == SatMul(x.mag, Len(x.val[1]))
      a == IF p.p \in {"inner", "quad", "had", "dist", "mm", "gram"} THEN R[p.a[1]].mag + 1 ELSE 10
      b == IF p.p = "mm" THEN R[p.a[2]].mag + 1 ELSE 1
  IN CASE p.p \in {"inner", "gather", "sparse", "fullw"} -> SatMul(m, a)
       [] p.p \in {"norm2", "frob2"} -> SatMul(m, x.mag + 1)
       [] p.p = "dist" -> SatMul(SatMul(m + 3 * a, x.mag + 3 * a), Len(x.val[1]))
       [] p.p = "mm" -> SatMul(SatMul(m, a), SatMul(b, NN(R[p.a[1]])))
       [] OTHER -> SatMul(SatMul(m, m), a)

FnOk(c, x, R) == /\ \A i \in DOMAIN c.parts : PartOk(c.parts[i], x, R)
                 /\ \A i \in DOMAIN c.parts : PMag(c.parts[i], x, R) < 4000000
FnVal(c, x, R) ==
  CASE c.comb = "lin" -> FoldLeftDomain(LAMBDA acc, i : acc + c.cw[i] * PVal(c.parts[i], x, R), 0, c.parts)
    [] c.comb = "sq" -> PVal(c.parts[1], x, R)
    [] c.comb = "prod" -> IF PVal(c.parts[1], x, R) = 0 \/ PVal(c.parts[2], x, R) = 0 THEN 0 ELSE 1
\* FnVal is only used to see whether the value is zero
FnGrad(c, x, R) ==
  LET g(i) == PGrad(c.parts[i], x, R)
      s(i) == PVal(c.parts[i], x, R)
  IN CASE c.comb = "lin" -> FoldLeftDomain(LAMBDA acc, i : DAdd(acc, DScale(c.cw[i], g(i))),
                                           Const(Len(x.val[1]), 0), c.parts)
       [] c.comb = "sq" -> DScale(2 * s(1), g(1))
       [] c.comb = "prod" -> DAdd(DScale(s(1), g(2)), DScale(s(2), g(1)))
FnHess(c, x, R, i) ==        \* row i
  LET h(k) == PHess(c.parts[k], x, R, i)
      g(k) == PGrad(c.parts[k], x, R)
      s(k) == PVal(c.parts[k], x, R)
      g1 == g(1)
      g2 == g(2)
  IN CASE c.comb = "lin" -> FoldLeftDomain(LAMBDA acc, k : DAdd(acc, DScale(c.cw[k], h(k))),
                                           Const(Len(x.val[1]), 0), c.parts)
       [] c.comb = "sq" -> DAdd(DScale(2 * s(1), h(1)), DScale(2 * g1[i], g1))
       [] c.comb = "prod" -> DAdd(DAdd(DScale(s(1), h(2)), DScale(s(2), h(1))),
                                  DAdd(DScale(g1[i], g2), DScale(g2[i], g1)))
\* the largest value of a part, to keep products of parts in range
FnTop(c, x, R) == MaxSeq(Map(c.parts, LAMBDA p : MaxI(Abs(PVal(p, x, R)), AbsMax(PGrad(p, x, R)))))
\* the representation-dependent function of the negative test: the value is
\* multiplied by the sum of the TT-ranks
RanksSum(s) == FoldLeft(LAMBDA acc, r : acc + r, 0, s)
RepDependent(x) == LET t == Trimmed(x.rk, Modes(x.rows, x.cols))
                   IN RanksSum(x.rk) # 2 * RanksSum(t) - 2
FnMag(c, x, R) ==
  MaxSeq(Tab(Len(c.parts), LAMBDA i : SatMul(Abs(c.cw[i]) + 1, AbsMax(PGrad(c.parts[i], x, R)) + x.mag)))
\* zero however it is computed
PlainZero(c) == c.comb = "lin" /\ \A i \in DOMAIN c.cw : c.cw[i] = 0
\* single precision: only where errors are not multiplied
Single(c, x) == x.dt = "f32" /\ c.comb # "lin"
SemGrad(c, R) ==
  LET x == R[c.a[1]]
  IN IF IsTan(x) \/ x.kind # "tt" \/ x.den # 1 \/ ND(x) < 2 \/ ~FnOk(c, x, R) \/ Single(c, x) THEN Free
     ELSE IF FnTop(c, x, R) > 20000 THEN Big
     ELSE IF c.check /\ ((FnVal(c, x, R) = 0 /\ (~PlainZero(c) \/ c.rep)) \/ x.dt = "f32") THEN Free
     ELSE IF c.rep THEN (IF c.check /\ RepDependent(x) THEN Err("any") ELSE Free)
     ELSE TanD("tt", x, 1, c.a[1], <<Fx(1, FnGrad(c, x, R))>>, FnMag(c, x, R))
\* c.a = <<x, w, t>>: t holds the projection of w on the tangent space at x
RowSum(r) == AbsSum(r)
SemHvp(c, R) ==
  LET x == R[c.a[1]]
      w == R[c.a[2]]
      t == R[c.a[3]]
      n == Len(x.val[1])
  IN IF IsTan(x) \/ ~Usable(w) \/ ~IsTan(t) \/ x.kind # "tt" \/ w.kind # "tt" \/ x.den # 1 \/ w.den # 1
        \/ ND(x) < 2 \/ ~FnOk(c, x, R) \/ Single(c, x) THEN Free
     ELSE IF ~SameForm(w, x) \/ w.dt # x.dt THEN Free
     ELSE IF t.kind # "tt" \/ t.tan.pt # c.a[1] \/ t.tan.z[1] # PreImage(w, 1, c.a[1]) THEN Free
     ELSE IF FnTop(c, x, R) > 20000 THEN Big
     ELSE IF c.check /\ ((FnVal(c, x, R) = 0 /\ (~PlainZero(c) \/ c.rep)) \/ x.dt = "f32") THEN Free
     ELSE IF c.rep THEN (IF c.check /\ RepDependent(x) THEN Err("any") ELSE Free)
     ELSE LET H == Tab(n, LAMBDA i : FnHess(c, x, R, i))
              top == MaxSeq(Map(H, LAMBDA r : RowSum(r)))
              q == IF top = 0 THEN 1 ELSE CHOOSE k \in {Pow(2, j) : j \in 0..20} : k >= top /\ (k = 1 \/ k < 2 * top)
              o == Fx(t.tan.S, t.tan.o[1])
              s0 == FxScale(o)          \* |o| s0 <= 2^15
              s1 == MinI(t.tan.S, 4 * s0)
              os == AtScale(o, s1)
          IN IF top > 15000 \/ s1 = 0 \/ s1 < q THEN Big
             ELSE TanD("tt", x, 1, c.a[1],
                       <<Fx(s1 \div q, Tab(n, LAMBDA i : DivRound(DDot(H[i], os), q)))>>,
                       SatMul(FnMag(c, x, R), TanMag(w) + 1))

SettleTan(e, ev) ==
  [kind |-> e.kind, mat |-> e.mat, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows, cols |-> e.cols,
   rk |-> ev.r.ark, val |-> <<>>, den |-> 1, mag |-> Lim, cores |-> <<>>,
   tan |-> [pt |-> e.pt, z |-> e.z, o |-> ev.r.v, S |-> ev.r.S]]

JudgeTan(e, ev, dyn) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE LET f == JudgeForm(e, ev.r, dyn)
       IN IF f # <<>> THEN f
          ELSE IF ev.r.bad THEN <<"value_not_finite">>
          ELSE IF Len(ev.r.v) # e.bs THEN <<"value">>
          ELSE LET bad == Tab(e.bs, LAMBDA b : ProjClauses(e.P, e.rows, e.cols, e.z[b], ev.r.v[b], ev.r.S, e.dt, e.mg))
               IN IF \A b \in 1..e.bs : bad[b] = <<>> THEN <<>>
                  ELSE bad[CHOOSE b \in 1..e.bs : bad[b] # <<>>]

\* <a, b> of two fixed-point vectors against an observed number o / S: all at
\* 2^13 / 2^13, tolerance relative to the lengths
DotNear(fa, fb, o, S, dt) ==
  LET norm(f) ==          \* to 13 bits
        LET m == MaxI(1, AbsMax(f.v))
            sh == CHOOSE i \in 0..31 : (IF i = 31 THEN TRUE ELSE m \div Pow(2, i) < 4096) /\ (i = 0 \/ m \div Pow(2, i - 1) >= 4096)
        IN [v |-> IF sh = 0 THEN f.v ELSE Map(f.v, LAMBDA z : DivRound(z, Pow(2, sh))), sh |-> sh]
      a == norm(fa)
      b == norm(fb)
      dot == FoldLeftDomain(LAMBDA acc, i : acc + a.v[i] * b.v[i], 0, a.v)
      err == AbsSum(a.v) + AbsSum(b.v) + Len(a.v)
      tol == (IF dt = "f32" THEN 16 * err ELSE err)
      \* value = dot * 2^(a.sh + b.sh) / (fa.S * fb.S); o / S
      lg(n) == CHOOSE i \in 0..30 : Pow(2, i) = n
      e2 == a.sh + b.sh - lg(fa.S) - lg(fb.S) + lg(S)      \* o ~ dot * 2^e2
  IN IF e2 >= 0
     THEN Abs(dot - (IF e2 > 30 THEN 0 ELSE DivRound(o, Pow(2, e2)))) <= tol + 8
     ELSE IF e2 < -30 THEN Abs(dot) <= tol + 8
     ELSE \* |o| <= 2^28: compare at the scale of o when it is coarser
          Abs(DivRound(dot, Pow(2, -e2)) - o) <= DivRound(tol, Pow(2, -e2)) + 8
OfElt(x, b) == LET bb == IF x.bs = 1 THEN 1 ELSE b
               IN IF IsTan(x) THEN Fx(x.tan.S, x.tan.o[bb]) ELSE Fx(1, x.val[bb])
JudgeTanNum(c, e, x, y, ev) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE IF ev.r.t # "num" THEN <<"kind">>
  ELSE Clause(ev.r.shp = e.shp, "result_shape")
       \o Clause(ev.r.dt = e.dt, "dtype")
       \o (IF ev.r.bad THEN <<"value_not_finite">>
           ELSE IF ev.r.shp # e.shp THEN <<>>
           ELSE CASE c.op = "pair_proj" ->
                       Clause(\A q \in 1..(x.bs * y.bs) :
                                DotNear(OfElt(x, (q - 1) \div y.bs + 1), OfElt(y, ((q - 1) % y.bs) + 1),
                                        ev.r.v[q], ev.r.S, e.dt), "value")
                  [] c.op = "t_inner" ->
                       Clause(\A q \in 1..Bc(x, y) : DotNear(OfElt(x, q), OfElt(y, q), ev.r.v[q], ev.r.S, e.dt), "value")
                  [] c.op = "t_full" ->
                       LET w == Flat(x.tan.o)
                       IN Clause(\A q \in DOMAIN w :
                                   LET s == MinI(x.tan.S, ev.r.S)
                                   IN Abs(DivRound(w[q], x.tan.S \div s) - DivRound(ev.r.v[q], ev.r.S \div s))
                                        <= (IF e.dt = "f32" THEN 4 + s \div 256 ELSE 4), "value"))
=============================================================================
