------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The register machine: which outcome each call must have (Expect), how   *)
(* a recorded outcome is judged (JudgeCall) and the state it leads to      *)
(* (After).  The same operators generate programs and validate traces.     *)
(***************************************************************************)
EXTENDS Long

X(R, c, i) == R[c.a[i]]

Expect0(c, R) ==
  CASE c.op = "new" -> SemNew(c)
    [] c.op = "full" -> SemFull(X(R, c, 1))
    [] c.op = "shapefn" -> SemShapeFn(c.f, X(R, c, 1))
    [] c.op = "add" -> SemLin(X(R, c, 1), X(R, c, 2), 1)
    [] c.op = "sub" -> SemLin(X(R, c, 1), X(R, c, 2), -1)
    [] c.op = "neg" -> SemScale(X(R, c, 1), -1, 1)
    [] c.op = "mul" -> SemMul(X(R, c, 1), X(R, c, 2))
    [] c.op = "scale" -> SemScale(X(R, c, 1), c.num, c.den)
    [] c.op = "transpose" -> SemTranspose(X(R, c, 1))
    [] c.op = "matmul" -> SemMatMul(X(R, c, 1), X(R, c, 2))
    [] c.op = "mat_dense" -> SemMatDense(X(R, c, 1), c.v, c.n, c.mm)
    [] c.op = "dense_mat" -> SemDenseMat(c.v, c.n, c.mm, X(R, c, 1))
    [] c.op = "inner" -> SemInner(X(R, c, 1), X(R, c, 2))
    [] c.op = "inner_sparse" -> SemInnerSparse(X(R, c, 1), c.ix, c.w, "dsh" \notin DOMAIN c \/ c.dsh = 0)
    [] c.op = "norm2" -> SemNorm2(X(R, c, 1))
    [] c.op = "norm" -> SemNorm2(X(R, c, 1))
    [] c.op = "bilin" -> SemBilinear(X(R, c, 1), X(R, c, 2), X(R, c, 3))
    [] c.op = "bilin2" -> SemBilinear2(X(R, c, 1), X(R, c, 2), X(R, c, 3), X(R, c, 4))
    [] c.op = "concat" -> SemConcat(Map(c.a, LAMBDA i : R[i]))
    [] c.op = "scale_batch" -> SemScaleBatch(X(R, c, 1), c.w, c.wden)
    [] c.op = "gram" -> SemPairwise(X(R, c, 1), X(R, c, 1))
    [] c.op = "pair" -> SemPairwise(X(R, c, 1), X(R, c, 2))
    [] c.op = "gram_mat" -> SemPairwiseMat(X(R, c, 1), X(R, c, 1), X(R, c, 2))
    [] c.op = "pair_mat" -> SemPairwiseMat(X(R, c, 1), X(R, c, 2), X(R, c, 3))
    [] c.op = "slice" -> IF IsBatch(X(R, c, 1)) THEN SemSliceBatch(X(R, c, 1), c.ix)
                         ELSE SemSlice(X(R, c, 1), c.ix)
    [] c.op = "gather" -> SemGather(X(R, c, 1), c.ish, c.ix)
    [] c.op = "cast" -> SemCast(X(R, c, 1), c.dt)
    [] c.op = "construct" -> SemConstruct(c)
    [] c.op = "expand" -> LET x == X(R, c, 1)
                          IN ObjD("batch", x.mat, x.dt, x.bs, x.rows, x.cols, x.rk, x.val, x.den, x.mag)
    [] c.op = "squeeze" -> LET x == X(R, c, 1)
                           IN ObjD(IF x.bs = 1 THEN "tt" ELSE "batch", x.mat, x.dt, x.bs, x.rows,
                                   x.cols, x.rk, x.val, x.den, x.mag)
    [] c.op = "bcast" -> LET x == X(R, c, 1)
                             y == X(R, c, 2)
                         IN ArrD(<<>>, <<IF Bc(x, y) = 0 THEN 0 ELSE 1>>, 1, 0, "int")
    [] c.op = "round" -> SemRound(X(R, c, 1), c)
    [] c.op = "to_tt" -> SemToTT(c)
    [] c.op = "orth" -> SemOrth(X(R, c, 1), c.l2r)
    [] c.op = "renorm" -> SemRenorm(X(R, c, 1))
    [] c.op = "project" -> SemProject(X(R, c, 1), X(R, c, 2), c.a[2])
    [] c.op = "project_sum" -> SemProjectSum(X(R, c, 1), X(R, c, 2), c.a[2], c.wt)
    [] c.op = "project_matmul" -> SemProjectMatmul(X(R, c, 1), X(R, c, 2), X(R, c, 3), c.a[2])
    [] c.op = "pair_proj" -> SemPairProjected(X(R, c, 1), X(R, c, 2))
    [] c.op = "add_proj" -> SemAddProjected(Map(c.a, LAMBDA i : R[i]), c.cf, R)
    [] c.op = "deltas" -> SemDeltas(X(R, c, 1), X(R, c, 2), c.a[2], R)
    [] c.op = "t_inner" -> SemTanInner(X(R, c, 1), X(R, c, 2))
    [] c.op = "t_full" -> SemTanFull(X(R, c, 1))
    [] c.op = "grad" -> SemGrad(c, R)
    [] c.op = "hvp" -> SemHvp(c, R)
    [] c.op = "add_n" -> SemAddN(Map(c.a, LAMBDA i : R[i]), c.cap)
    [] c.op = "reduce_sum" -> SemReduceSum(X(R, c, 1), c.cap, c.cf)
    [] c.op = "kdet" -> SemKDet(X(R, c, 1))
    [] c.op = "kslog" -> SemKDet(X(R, c, 1))
    [] c.op = "kinv" -> SemKInv(X(R, c, 1))
    [] c.op = "kchol" -> SemKChol(X(R, c, 1))
    [] c.op = "init" -> SemInit(c)
    [] c.op = "like" -> SemLikeInit(X(R, c, 1), c.one)
    [] c.op = "like_bad" -> Err("ValueError")
    [] c.op = "moments" -> [k |-> "mom"]
    [] c.op = "k_new" -> SemKNew(c)
    [] c.op = "k_copy" -> SemKCopy(c, X(R, c, 1))
    [] c.op = "k_set" -> SemKSet(c, X(R, c, 1))
    [] c.op = "k_call" -> SemKCall(c, X(R, c, 1))
    [] c.op = "k_train" -> SemKTrain(c, X(R, c, 1))
    [] c.op = "k_get" -> SemKGet(c, X(R, c, 1))
    [] c.op = "v_get" -> SemVGet(c, R)
    [] c.op = "v_assign" -> SemVAssign(c, R)
    [] c.op = "v_read" -> SemVRead(c, R)
    [] c.op = "v_op" -> SemVOp(c, R)
    [] c.op = "v_node" -> SemVNode(c, R)
    [] c.op = "v_eval" -> SemVEval(c, R)
    [] c.op = "reg" -> SemReg(c, X(R, c, 1))

(***************************************************************************)
(* Derivatives with respect to cores.  c.seq is a sequence of calls, the   *)
(* last one giving numbers; register c.x is made by one of them from       *)
(* integer cores.  For each core k of it, the derivative of the sum of     *)
(* the numbers, weighted by c.w, in the direction c.D of core k.  As a     *)
(* function of one core the sum is a polynomial; the five-point formula is *)
(* exact up to degree 4.  If c.arg is not zero, the derivative is in the   *)
(* direction c.D of the numbers given to call c.arg (a factor, weights, a  *)
(* dense matrix, the values of a sparse tensor) instead.                   *)
(***************************************************************************)
\* the register a call makes, with the largest allowed ranks
Guess(e, cores) ==
  [kind |-> e.kind, mat |-> e.mat, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows,
   cols |-> e.cols,
   rk |-> IF e.rkmax = <<>> THEN Tab(Len(e.rows) + 1, LAMBDA k : IF k = 1 \/ k = Len(e.rows) + 1 THEN 1 ELSE 4)
          ELSE e.rkmax,
   val |-> e.val, den |-> e.den, mag |-> e.mag, cores |-> cores]
KnownCores(c) == IF c.op = "new" THEN Tab(c.bs, LAMBDA b : CoresOf(c, b)) ELSE <<>>
Put(R, i, x) == [j \in DOMAIN R \cup {i} |-> IF j = i THEN x ELSE R[j]]

DObjOps == {"new", "add", "sub", "neg", "mul", "scale", "transpose", "matmul", "concat", "scale_batch", "slice",
            "cast", "expand", "squeeze"}
DNumOps == {"full", "mat_dense", "dense_mat", "inner", "inner_sparse", "norm2", "norm", "bilin", "bilin2",
            "gram", "pair", "gram_mat", "pair_mat", "gather", "reg"}
\* degree of the result of call c in a core of x, given those of the registers
DegOf(c, x, G) ==
  LET g(i) == G[c.a[i]]
      s == Sum(Len(c.a), LAMBDA i : g(i))
  IN CASE Has(c, "mark") -> 1
       [] c.op = "new" -> IF c.o = x THEN 1 ELSE 0
       [] c.op \in {"add", "sub", "concat"} -> MaxSeq(Tab(Len(c.a), LAMBDA i : g(i)))
       [] c.op \in {"norm2", "norm", "gram", "reg"} -> 2 * g(1)
       [] c.op = "gram_mat" -> 2 * g(1) + g(2)
       [] OTHER -> s
Degree(seq, x) ==
  LET step(G, c) == Put(G, c.o, DegOf(c, x, G))
  IN FoldLeft(step, [i \in {-1} |-> 0], seq)[0]
ArgOps == {"scale", "mat_dense", "dense_mat", "inner_sparse", "scale_batch"}
\* the sequence with the numbers of call j moved by t times the direction
MovedArg(seq, j, D, t) ==
  LET c == seq[j]
      plus(v, f) == Tab(Len(v), LAMBDA q : v[q] + t * f * D[q])
  IN [seq EXCEPT ![j] = CASE c.op = "scale" -> [c EXCEPT !.num = @ + t * c.den * D[1]]
                          [] c.op = "scale_batch" -> [c EXCEPT !.w = plus(@, c.wden)]
                          [] c.op = "inner_sparse" -> [c EXCEPT !.w = plus(@, 1)]
                          [] OTHER -> [c EXCEPT !.v = plus(@, 1)]]
\* the sequence with core k of x moved by t times the direction
Moved(seq, x, D, k, t) ==
  Map(seq, LAMBDA c : IF c.op # "new" \/ c.o # x THEN c
                      ELSE [c EXCEPT !.e = Tab(c.bs, LAMBDA b : Tab(Len(c.rows), LAMBDA j :
                              IF j # k THEN c.e[b][j] ELSE Tab(Len(c.e[b][j]), LAMBDA q : c.e[b][j][q] + t * D[b][j][q])))])
\* the outcome of the last call
Outcome(seq) ==
  LET step(acc, c) ==
        IF acc.e.k \in {"big", "free"} THEN acc
        ELSE IF c.op \notin DObjOps \cup DNumOps \/ (c.op \in {"norm", "norm2"} /\ ~c.diff) \/ (c.op = "reg" /\ c.f \notin {"l2", "sumsq"})
             \/ (c.op = "cast" /\ c.dt # "f64")
        THEN [R |-> acc.R, e |-> Free]
        ELSE LET e == Expect0(c, acc.R)
             IN IF e.k = "big" THEN [R |-> acc.R, e |-> Big]
                ELSE IF e.k \notin {"obj", "num"} THEN [R |-> acc.R, e |-> Free]
                ELSE IF e.k = "num" THEN [R |-> acc.R, e |-> IF c.op = "norm" /\ \E i \in DOMAIN e.val : e.val[i] = 0 THEN Free ELSE e]
                ELSE [R |-> Put(acc.R, c.o, Guess(e, KnownCores(c))), e |-> e]
  IN FoldLeft(step, [R |-> [i \in {-1} |-> Nil], e |-> [k |-> "none"]], seq).e
SemDiff(c) ==
  LET nw == CHOOSE z \in Range(c.seq) : z.op = "new" /\ z.o = c.x
      d == IF c.arg # 0 THEN 1 ELSE Len(nw.rows)
      base == Outcome(c.seq)
      deg == IF c.arg = 0 THEN Degree(c.seq, c.x) ELSE Degree([c.seq EXCEPT ![c.arg] = @ @@ [mark |-> TRUE]], -5)
      W == SumSeq(Map(c.w, LAMBDA z : Abs(z)))
      pt(k, t) == Outcome(IF c.arg # 0 THEN MovedArg(c.seq, c.arg, c.D, t) ELSE Moved(c.seq, c.x, c.D, k, t))
      all == Tab(d, LAMBDA k : <<pt(k, 1), pt(k, -1), pt(k, 2), pt(k, -2)>>)
      F(e) == Sum(Len(c.w), LAMBDA j : c.w[j] * e.val[j])
      mag == MaxSeq(Tab(d, LAMBDA k : MaxSeq(Map(all[k], LAMBDA e : e.mag))))
  IN IF base.k # "num" THEN base
     ELSE IF deg > 4 \/ Len(base.val) # Len(c.w) \/ (c.arg # 0 /\ \E z \in Range(c.seq) : z.op = "cast") THEN Free
     ELSE IF \E k \in 1..d : \E j \in 1..4 : all[k][j].k # "num" THEN Big
     ELSE IF SatMul(mag, W) >= Lim THEN Big
     ELSE ArrD(<<d>>, Tab(d, LAMBDA k : (8 * (F(all[k][1]) - F(all[k][2])) - (F(all[k][3]) - F(all[k][4]))) \div 12),
               base.den, mag * W, IF c.arg # 0 THEN base.dt ELSE nw.dt)
Expect1(c, R) == IF c.op = "diff" THEN SemDiff(c) ELSE IF IsLong(c) THEN LongExpect(c, R) ELSE Expect0(c, R)

\* with the exponents of the result if operands have exponents
Expect(c, R) ==
  LET e == Expect1(c, R)
  IN IF e.k \in {"err", "big", "free"} \/ ~Scaled(c, R) THEN e
     ELSE LET x == Exps(c, R, e) IN IF x = <<>> THEN Free ELSE e @@ [ex |-> x]

\* frobenius_norm is observed through its square, sqrt(n2 + eps)^2; eps is
\* c.eps / c.epsden with epsden 1 or 100000
JudgeNorm(c, e, ev) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE IF ev.r.t # "num" THEN <<"kind">>
  ELSE IF ev.r.bad THEN <<"value_not_finite">>
  ELSE LET S == ev.r.S
           shift == IF c.epsden = 1 THEN c.eps * S ELSE (c.eps * (S \div (c.epsden \div 100))) \div 100
       IN JudgeNum(e, [ev.r EXCEPT !.v = Map(ev.r.v, LAMBDA z : z - shift)])
          \o Clause(ev.r.neg = FALSE, "negative_norm")

(***************************************************************************)
(* Calls in a compiled function: m = "graph" with static shapes, m = "dyn" *)
(* with batch sizes unknown at compile time.  In the latter case some      *)
(* combinations are not supported and may be rejected (never miscomputed), *)
(* and the kind of an error is not fixed.                                  *)
(***************************************************************************)
Dyn(c) == Has(c, "m") /\ c.m = "dyn"
Unsupported(c, R) ==
  /\ Dyn(c)
  /\ LET nb == Cardinality({i \in DOMAIN c.a : c.a[i] \in DOMAIN R /\ R[c.a[i]].kind = "batch"})
     IN \/ c.op \in {"add", "sub", "inner", "t_inner", "matmul", "add_n"} /\ nb >= 2
        \/ c.op = "mul" /\ nb = 2 /\ X(R, c, 1).bs # X(R, c, 2).bs
        \/ c.op \in {"deltas", "reduce_sum"} /\ nb >= 1

\* a number known up to e.slack
JudgeSlack(e, ev) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE IF ev.r.t # "num" THEN <<"kind">>
  ELSE IF ev.r.bad THEN <<"value_not_finite">>
  ELSE Clause(Len(ev.r.v) = 1 /\ Abs(ev.r.v[1] \div ev.r.S - e.val[1]) <= e.slack, "value")

JudgeCall(c, R, e, ev) ==
  (IF Unsupported(c, R) /\ ~ev.ok THEN <<>>
   ELSE IF Dyn(c) /\ e.k = "err" THEN Clause(~ev.ok, "not_rejected")
   ELSE IF c.op = "norm" /\ e.k = "num" THEN JudgeNorm(c, e, ev)
   ELSE IF Has(e, "slack") THEN JudgeSlack(e, ev)
   ELSE IF e.k = "form" THEN (IF ev.ok THEN JudgeForm(e, ev.r, Dyn(c)) ELSE <<"raised">>)
   ELSE IF e.k = "approx" THEN JudgeApprox(e, ev, Dyn(c))
   ELSE IF e.k = "tan" THEN JudgeTan(e, ev, Dyn(c))
   ELSE IF e.k = "ratio" THEN JudgeRatio(e, ev, Dyn(c))
   ELSE IF e.k = "layer" THEN JudgeLayer(e, ev)
   ELSE IF e.k = "var" THEN JudgeVar(c, e, ev)
   ELSE IF e.k = "node" THEN Clause(ev.ok, "raised")
   ELSE IF e.k = "mom" THEN JudgeMoments(c, ev)
   ELSE IF e.k = "tannum" THEN JudgeTanNum(c, e, X(R, c, 1), X(R, c, IF Len(c.a) > 1 THEN 2 ELSE 1), ev)
   ELSE IF c.op = "orth" THEN JudgeOrth(e, ev, c.l2r, Dyn(c))
   ELSE IF c.op = "renorm" THEN JudgeRenorm(e, X(R, c, 1), ev, Dyn(c))
   ELSE JudgeOutcome(e, ev, Dyn(c)))
  \o (IF c.op \in {"init", "like"} THEN ExactRanks(c, e, ev) ELSE <<>>)
  \o (IF c.op = "kslog" /\ e.k = "num" /\ ev.ok /\ ~ev.r.bad
      THEN Clause(Len(ev.sg) = Len(e.val) /\ \A i \in DOMAIN e.val : (~IsLong(c) /\ e.val[i] = 0) \/ ev.sg[i] = (IF IsLong(c) THEN e.sg[i] ELSE Sgn(e.val[i])), "sign")
      ELSE <<>>)
  \o (IF c.op = "cast" /\ e.k = "obj" /\ ev.ok /\ ev.r.t \in {"tt", "batch"}
      THEN Clause(ev.r.ark = e.rkmax, "ranks") ELSE <<>>)
  \o (IF IsV(c) THEN JudgeStore(c, IF e.k = "var" THEN e.st ELSE StoreOf(R), ev) ELSE <<>>)
  \o Clause(\A i \in DOMAIN ev.chg : IsV(c) /\ ev.chg[i] \in Aliases(c, R, e), "operand_modified")

\* the value of a truncated object is not known: its register is dropped
Drop(R, i) == [j \in DOMAIN R \ {i} |-> R[j]]
WithEx(x, e) == (IF Has(e, "ex") THEN x @@ [ex |-> e.ex] ELSE x)
                @@ [f \in {"tr", "tp"} \cap DOMAIN e |-> e[f]]
\* register file after the call
After(c, R, e, ev) ==
  IF ~ev.ok THEN R
  ELSE IF e.k = "form" THEN Drop(R, c.o)
  ELSE IF e.k = "obj" THEN Put(R, c.o, WithEx(Settle(e, ev, KnownCores(c)), e))
  ELSE IF e.k = "layer" THEN Put(R, c.o, e.L)
  ELSE IF e.k = "var" THEN Put(IF c.o = 0 THEN R ELSE Put(R, c.o, [kind |-> "var", key |-> e.key]), StoreReg, e.st)
  ELSE IF e.k = "node" THEN Put(R, c.o, [kind |-> "node", key |-> e.key])
  ELSE IF e.k = "ratio" THEN LET x == SettleRatio(e, ev) IN IF x = Nil THEN Drop(R, c.o) ELSE Put(R, c.o, WithEx(x, e))
  ELSE IF e.k = "tan" THEN Put(R, c.o, WithEx(SettleTan(e, ev), e))
  ELSE IF e.k \in {"approx", "free", "big"} /\ c.o # 0 THEN Drop(R, c.o)
  ELSE R
=============================================================================
