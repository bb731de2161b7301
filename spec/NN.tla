--------------------------------- MODULE NN ---------------------------------
(***************************************************************************)
(* The TT dense layer as a state machine.  A layer register holds the      *)
(* shape, ranks, activation and (once set) the integer weights:            *)
(*   cores  sequence of cores, <<>> while not known exactly                *)
(*   b      the bias, <<>> without bias                                    *)
(*   dt     the type of the weights and results                            *)
(*   plain  whether all arguments of the constructor can be part of the    *)
(*          configuration of the layer (lists, numbers, strings)           *)
(*   bi     the initial bias                                               *)
(***************************************************************************)
EXTENDS T3FMore

LayerOut(L) == [k |-> "layer", L |-> L]
LayerRanks(c) == InitRanks([f |-> "glorot_initializer", rkk |-> c.rkk, rkv |-> c.rkv], Len(c.rows))
SemKNew(c) ==
  IF c.ki \notin {"glorot", "he", "lecun", "default"} THEN Err("ValueError")
  ELSE LayerOut([kind |-> "layer", rows |-> c.rows, cols |-> c.cols, rk |-> LayerRanks(c), act |-> c.act,
                 bias |-> c.bias, cores |-> <<>>, dt |-> IF c.dt = "default" THEN "f32" ELSE c.dt,
                 plain |-> c.f = 0 /\ c.act \in {"none", "relu", "linear"}, bi |-> <<c.bi, c.bden>>,
                 b |-> IF c.bias THEN Const(ProdSeq(c.cols), c.bi) ELSE <<>>, bden |-> c.bden])
LCores(L, e) == Tab(Len(L.rows), LAMBDA k : Core(L.rk[k], L.rows[k], L.cols[k], L.rk[k + 1], e[k]))
SemKSet(c, L) ==
  LET cs == LCores(L, c.e)
  IN IF MagOf(cs) > 2000 THEN Big
     ELSE LayerOut([L EXCEPT !.cores = cs, !.b = IF L.bias THEN c.b ELSE <<>>, !.bden = 1])
\* a layer made from the configuration of L; mv: with the weights of L
SemKCopy(c, L) ==
  IF ~L.plain THEN Free
  ELSE LayerOut(IF c.mv THEN L
                ELSE [L EXCEPT !.cores = <<>>, !.b = IF L.bias THEN Const(ProdSeq(L.cols), L.bi[1]) ELSE <<>>, !.bden = L.bi[2]])
Act(f, z) == CASE f \in {"none", "linear"} -> z
               [] f = "relu" -> MaxI(z, 0)
               [] f = "square" -> z * z
               [] f = "abs" -> Abs(z)
DAct(f, z) == CASE f \in {"none", "linear"} -> 1
                [] f = "relu" -> IF z > 0 THEN 1 ELSE 0
                [] f = "square" -> 2 * z
                [] f = "abs" -> Sgn(z)
\* x W + b for x of n rows; and a bound of the magnitudes
Affine(L, x, n) ==
  LET N == ProdSeq(L.rows)
      M == ProdSeq(L.cols)
      y == DMatMul(x, DenseOf(L.cores), n, N, M)
  IN IF L.bias THEN Tab(n * M, LAMBDA q : y[q] + L.b[((q - 1) % M) + 1]) ELSE y
AffineMag(L, x) == SatAdd(SatMul(MagOf(L.cores), AbsSum(x)), IF L.bias THEN AbsMax(L.b) ELSE 0)
SemKCall(c, L) ==
  IF L.cores = <<>> \/ L.bden # 1 THEN Free
  ELSE LET mag == AffineMag(L, c.x)
           top == IF L.act = "square" THEN SatMul(mag, mag) ELSE mag
       IN IF top > 30000 THEN Big
          ELSE ArrD(<<c.n, ProdSeq(L.cols)>>, Map(Affine(L, c.x, c.n), LAMBDA z : Act(L.act, z)), 1, top, L.dt)
\* one step of gradient descent of  sum w * layer(x)  with learning rate one
SemKTrain(c, L) ==
  IF L.cores = <<>> \/ L.bden # 1 THEN Free
  ELSE LET N == ProdSeq(L.rows)
           M == ProdSeq(L.cols)
           mag == AffineMag(L, c.x)
       IN IF mag > 1000 THEN Big
          ELSE LET z == Affine(L, c.x, c.n)
                   D == Tab(c.n * M, LAMBDA q : c.w[q] * DAct(L.act, z[q]))
                   G == DMatMul(DTrans(c.x, c.n, N), D, N, c.n, M)
                   d == Len(L.rows)
                   unit(k, q) == [L.cores EXCEPT ![k].e = Tab(Len(L.cores[k].e), LAMBDA i : IF i = q THEN 1 ELSE 0)]
                   gmag == SatMul(AbsSum(G), SatMul(MagOf(L.cores) + 1, 4))
               IN IF \E q \in DOMAIN z : z[q] = 0 /\ L.act \in {"relu", "abs"} /\ c.w[q] # 0 THEN Free
                  ELSE IF AbsMax(G) > 3000 THEN Big
                  ELSE LET step(k) == Tab(Len(L.cores[k].e), LAMBDA q : L.cores[k].e[q] - DDot(G, DenseOf(unit(k, q))))
                           cs == Tab(d, LAMBDA k : [L.cores[k] EXCEPT !.e = step(k)])
                           nb == Tab(M, LAMBDA j : L.b[j] - Sum(c.n, LAMBDA i : D[(i - 1) * M + j]))
                       IN IF \E k \in 1..d : AbsMax(cs[k].e) > 3000 THEN Big
                          ELSE IF MagOf(cs) > 100000 THEN Big
                          ELSE LayerOut([L EXCEPT !.cores = cs, !.b = IF L.bias THEN nb ELSE <<>>])
SemKGet(c, L) == LayerOut(L)

\* shapes of the trainable weights, as a bag
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A v \in Rng(s) : Count(s, v) = Count(t, v)
WeightShapes(L) ==
  Tab(Len(L.rows), LAMBDA k : <<L.rk[k], L.rows[k], L.cols[k], L.rk[k + 1]>>)
  \o (IF L.bias THEN << <<ProdSeq(L.cols)>> >> ELSE <<>>)
JudgeLayer(e, ev) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE IF ev.r.t # "layer" THEN <<"kind">>
  ELSE LET L == e.L
           known == L.cores # <<>>
           mag == IF known THEN MagOf(L.cores) ELSE 0
           w == [kind |-> "tt", mat |-> TRUE, dt |-> L.dt, bs |-> 1, rows |-> L.rows, cols |-> L.cols,
                 rkmax |-> L.rk, val |-> IF known THEN <<DenseOf(L.cores)>> ELSE <<>>, den |-> 1, mag |-> mag]
       IN (IF known THEN JudgeObj(w, ev.w, FALSE) ELSE JudgeForm(w, ev.w, FALSE))
          \o Clause(ev.w.t # "tt" \/ ev.w.ark = L.rk, "ranks")
          \o Clause(SameBag(ev.ws, WeightShapes(L)), "trainable_weights")
          \o Clause(ev.nnt = 0, "non_trainable_weights")
          \o Clause(ev.nmok, "name")
          \o Clause(ev.wdt = L.dt, "dtype")
          \o Clause(ev.os = <<7, ProdSeq(L.cols)>>, "output_shape")
          \o Clause(ev.hasb = L.bias, "bias")
          \o (IF L.bias /\ ev.hasb THEN Clause(~ev.bbad /\ NearAll(ev.b, ev.bS, L.b, L.bden, AbsMax(L.b) + 1, L.dt), "bias") ELSE <<>>)
=============================================================================
