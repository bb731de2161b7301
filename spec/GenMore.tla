------------------------------ MODULE GenMore -------------------------------
(***************************************************************************)
(* Programs for C17 .. C20 and C25.                                        *)
(***************************************************************************)
EXTENDS GenRiem

(***************************************************************************)
(* C17: approximate sums                                                   *)
(***************************************************************************)
GSumShape(K) ==
  LET mat == Chance(K, 1, 1, 3)
      d == Among(K, 2, <<1, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 6>>)
  IN IF mat THEN [mat |-> TRUE, rows |-> GModes(Sub(K, 3), d, 6), cols |-> GModes(Sub(K, 4), d, 6)]
     ELSE [mat |-> FALSE, rows |-> GModes(Sub(K, 3), d, 40), cols |-> Const(d, 1)]
\* a batch whose elements are multiples of one another
GMultiples(K, c) ==
  LET w == Tab(c.bs, LAMBDA b : Among(K, b, <<1, -1, 2, 3, 0, -2>>))
  IN [c EXCEPT !.e = Tab(c.bs, LAMBDA b : [c.e[1] EXCEPT ![1] = DScale(w[b], @)])]
GSumCap(K, x) == Among(K, 1, <<1, 2, 3, 4, 6, MaxSeq(x.rk), MaxSeq(x.rk), 12, 40, 2 * MaxSeq(x.rk)>>)
GSumCoef(K, x) ==
  LET k == Pick(K, 1, 12)
      n == InR(K, 2, 1, 3)
      w(len) == Tab(len, LAMBDA i : Among(K, 10 + i, <<0, 1, -1, 2, 3, -2>>))
  IN CASE k \in 0..2 -> [k |-> "none", f |-> 0]
       [] k \in 3..5 -> [k |-> "vec", v |-> w(x.bs), f |-> Pick(K, 3, 3)]
       [] k \in 6..9 -> [k |-> "mat", v |-> w(x.bs * n), n |-> n, nr |-> x.bs, f |-> Pick(K, 3, 3)]
       [] k = 10 -> LET nr == x.bs + Among(K, 4, <<1, 2, -1>>)
                    IN IF nr < 1 THEN [k |-> "none", f |-> 0]
                       ELSE [k |-> "mat", v |-> w(nr * n), n |-> n, nr |-> nr, f |-> Pick(K, 3, 3)]
       [] OTHER -> [k |-> "cube", f |-> 0]
GenC17(K, idx, s, R) ==
  LET sh == GSumShape(Sub(K, 1))
      dt == GDt(K, 2)
      many == Chance(K, 3, 1, 2)           \* a list of objects or one batch
      kind == IF many THEN Among(K, 4, <<"tt", "tt", "batch">>) ELSE "batch"
      bs == IF many THEN (IF kind = "batch" THEN 2 ELSE 1) ELSE Among(K, 5, <<1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 9, 13>>)
      d == Len(sh.rows)
      rk == GRanks(Sub(K, 6), d, IF many THEN 3 ELSE 2)
      nw(o) == GNew(Sub(K, 20 + o), o, kind, sh.mat, dt, bs, sh.rows, sh.cols, GRanks(Sub(K, 6 + o), d, 3))
      nb == GNew(Sub(K, 20), 1, "batch", sh.mat, dt, bs, sh.rows, sh.cols, rk)
      Ks == Sub(K, 40 + s)
      pool == SetToSortSeq({i \in {1, 2, 3, 4, 5} : Ok(R, i)}, LAMBDA a, b : a < b)
      cnt == Among(Ks, 1, <<1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 1, 2, 2, 3, 3, 4, 5, 6, 7, 12, 17>>)
      addn(o, as) == [op |-> "add_n", o |-> o, a |-> as, cap |-> GSumCap(Sub(Ks, 2), R[1]), f |-> Pick(Ks, 3, 2)]
  IN IF many
     THEN CASE s = 1 -> nw(1)
            [] s = 2 -> nw(2)
            [] s = 3 -> GScalar(Ks, 3, 1)
            [] s = 4 -> Call2("add", 4, 1, 2) @@ [form |-> "fn"]
            [] s = 5 -> IF Chance(Ks, 1, 1, 6) THEN GNew(Ks, 5, kind, sh.mat, dt, bs, [sh.rows EXCEPT ![d] = @ + 1], sh.cols, rk)
                        ELSE nw(5)
            [] s \in 6..9 -> IF pool = <<>> \/ ~Ok(R, 1) THEN Skip
                             ELSE addn(s, Tab(cnt, LAMBDA i : Among(Ks, 10 + i, IF Chance(Ks, 4, 1, 3) THEN <<1, 3, 1>> ELSE pool)))
            [] OTHER -> Stop
     ELSE CASE s = 1 -> IF Chance(K, 7, 1, 2) THEN GMultiples(Sub(K, 8), nb) ELSE nb
            [] s \in 2..6 -> IF ~Ok(R, 1) THEN Stop
                             ELSE [op |-> "reduce_sum", o |-> s, a |-> <<1>>, cap |-> GSumCap(Sub(Ks, 2), R[1]),
                                   cf |-> GSumCoef(Sub(Ks, 5), R[1]), f |-> Pick(Ks, 3, 2)]
            [] OTHER -> Stop

(***************************************************************************)
(* C18: Kronecker products.  style 0: small entries, 1: unimodular         *)
(* (lower times upper), 2: L L^T with integer lower L, 3: mixed            *)
(***************************************************************************)
GLower(K, n, dmax) == Tab(n * n, LAMBDA q : LET i == (q - 1) \div n
                                                j == (q - 1) % n
                                            IN IF j > i THEN 0 ELSE IF i = j THEN InR(K, q, 1, dmax) ELSE InR(K, q, -2, 2))
GKronCore(K, n, style) ==
  LET L == GLower(Sub(K, 1), n, IF style = 2 THEN 3 ELSE 1)
      U == DTrans(GLower(Sub(K, 2), n, 1), n, n)
      A == DMatMul(L, DTrans(L, n, n), n, n, n)
      B == DMatMul(L, U, n, n, n)
      sw == Tab(n * n, LAMBDA q : LET i == (q - 1) \div n
                                      j == (q - 1) % n
                                  IN B[(IF i = 0 THEN n - 1 ELSE IF i = n - 1 THEN 0 ELSE i) * n + j + 1])
  IN CASE style = 0 -> Tab(n * n, LAMBDA q : InR(K, q + 10, -2, 2))
       [] style = 1 -> IF Chance(K, 3, 1, 2) THEN B ELSE sw
       [] style = 2 -> A
       [] OTHER -> Tab(n * n, LAMBDA q : InR(K, q + 10, -1, 3))
GKronNew(K, o) ==
  LET d == Among(K, 1, <<1, 1, 2, 2, 2, 2, 3, 3, 3, 4>>)
      style == Pick(K, 2, 4)
      n == GModes(Sub(K, 3), d, Among(K, 4, <<4, 6, 8, 12>>))
      kind == GKind(K, 5)
      bs == IF kind = "batch" THEN Among(K, 6, <<1, 2, 3>>) ELSE 1
      m == Tab(d, LAMBDA k : MinI(n[k], 4))
      spoil == Pick(K, 7, 16)
      rk == [k \in 1..(d + 1) |-> IF spoil = 0 /\ k = 2 /\ d > 1 THEN 2 ELSE 1]
      cols == IF spoil = 1 THEN [m EXCEPT ![InR(K, 8, 1, d)] = @ + 1] ELSE m
      mat == spoil # 2
  IN IF spoil \in 0..2
     THEN GNew(Sub(K, 9), o, kind, mat, GDt(K, 10), bs, m, IF mat THEN cols ELSE Const(d, 1), rk)
     ELSE [op |-> "new", o |-> o, a |-> <<>>, kind |-> kind, mat |-> TRUE, dt |-> GDt(K, 10), bs |-> bs,
           rows |-> m, cols |-> m, rk |-> Const(d + 1, 1), via |-> Pick(K, 11, 6),
           e |-> Tab(bs, LAMBDA b : Tab(d, LAMBDA k : GKronCore(Sub(K, 20 * b + k), m[k], style)))]
GenC18(K, idx, s, R) ==
  CASE s = 1 -> GKronNew(Sub(K, 1), 1)
    [] s > 1 /\ ~Ok(R, 1) -> Stop
    [] s = 2 -> Call1("kdet", 0, 1)
    [] s = 3 -> Call1("kslog", 0, 1)
    [] s = 4 -> Call1("kinv", 4, 1)
    [] s = 5 -> Call1("kchol", 5, 1)
    [] s = 6 -> IF Ok(R, 4) THEN Call2("matmul", 6, 1, 4) ELSE Skip
    [] s = 7 -> IF Ok(R, 5) THEN Call1("transpose", 7, 5) ELSE Skip
    [] s = 8 -> IF Ok(R, 7) THEN Call2("matmul", 8, 5, 7) ELSE Skip
    [] s = 9 -> Call1("transpose", 9, 1)
    [] s = 10 -> IF Ok(R, 9) THEN Call1("kdet", 0, 9) ELSE Skip
    [] s = 11 -> IF Ok(R, 9) THEN Call1("kslog", 0, 9) ELSE Skip
    [] s = 12 -> GKronNew(Sub(K, 2), 12)
    [] s = 13 -> IF Ok(R, 12) THEN Call1("kinv", 13, 12) ELSE Stop
    [] s = 14 -> Call1("kdet", 0, 12)
    [] OTHER -> Stop

(***************************************************************************)
(* C19: initializers                                                       *)
(***************************************************************************)
AllInit == <<"tensor_ones", "tensor_zeros", "eye", "matrix_ones", "matrix_zeros", "tensor_with_random_cores",
             "tensor_batch_with_random_cores", "matrix_with_random_cores", "matrix_batch_with_random_cores",
             "random_tensor", "random_tensor_batch", "random_matrix", "random_matrix_batch",
             "glorot_initializer", "he_initializer", "lecun_initializer">>
GInit(K, o) ==
  LET f == Among(K, 1, AllInit)
      mat == f \in MatInit
      d == Among(K, 2, <<1, 1, 2, 2, 3, 3, 4, 5>>)
      n == GModes(Sub(K, 3), d, IF mat THEN 9 ELSE 60)
      m == IF mat THEN GModes(Sub(K, 4), d, 9) ELSE <<>>
      bad == Pick(K, 5, 4) = 0
      how == Pick(K, 6, 9)
      rows == IF bad /\ how = 0 THEN [n EXCEPT ![InR(K, 7, 1, d)] = Among(K, 8, <<0, -1, -3>>)]
              ELSE IF bad /\ how = 1 /\ mat THEN n \o <<2>> ELSE n
      cols == IF bad /\ how = 2 /\ mat THEN [m EXCEPT ![InR(K, 7, 1, d)] = Among(K, 8, <<0, -1>>)] ELSE m
      frac == IF bad /\ how = 3 THEN "shape"
              ELSE IF bad /\ how = 4 /\ f \notin ConstInit THEN "rank"
              ELSE IF bad /\ how = 5 /\ f \in BatchInit THEN "bs" ELSE ""
      rkk == IF bad /\ how \in 6..7 THEN Among(K, 9, <<"num", "vec">>) ELSE Among(K, 9, <<"num", "num", "vec", "vec", "default">>)
      rkv == IF rkk = "num" THEN <<IF bad /\ how \in 6..7 THEN Among(K, 10, <<0, -2>>) ELSE InR(K, 10, 1, 5)>>
             ELSE IF bad /\ how = 6 THEN [GRanks(Sub(K, 11), d, 4) EXCEPT ![InR(K, 12, 1, d + 1)] = Among(K, 13, <<0, -1>>)]
             ELSE IF bad /\ how = 7 THEN Const(MaxI(1, d + Among(K, 14, <<0, 2, -1>>)), 2)
             ELSE GRanks(Sub(K, 11), d, 4)
      none == mat /\ ~bad /\ Chance(K, 15, 1, 4)
      rn == none /\ Chance(K, 16, 1, 2)
  IN [op |-> "init", o |-> o, a |-> <<>>, f |-> f, rows |-> IF rn THEN n ELSE rows, cols |-> cols,
      rnone |-> rn, cnone |-> none /\ ~rn, frac |-> frac, rkk |-> rkk, rkv |-> rkv,
      bsk |-> Among(K, 17, <<"num", "num", "default">>),
      bsv |-> IF bad /\ how = 8 THEN Among(K, 18, <<0, -1>>) ELSE InR(K, 18, 1, 4),
      mean |-> IF bad \/ f \notin MeanZero \/ Chance(K, 19, 5, 6) THEN 0 ELSE Among(K, 20, <<1, -1, 3>>),
      nest |-> bad /\ how = 1 /\ ~mat, sf |-> Pick(K, 21, 3), sn |-> InR(K, 22, 1, 3), sd |-> Among(K, 23, <<0, 1, 2>>),
      dt |-> IF f \in ConstInit THEN Among(K, 24, <<"default", "f64", "f32", "i32">>)
             ELSE Among(K, 24, <<"default", "f64", "f32">>)]
GenC19(K, idx, s, R) ==
  LET Ks == Sub(K, s)
      consts == {i \in DOMAIN R : i # 0}
      q == SetToSortSeq(consts, LAMBDA a, b : a < b)
  IN IF s > 14 THEN Stop
     ELSE IF s \in {3, 7, 11} /\ q # <<>>
     THEN Call1("like", s, Among(Ks, 1, q)) @@ [one |-> Chance(Ks, 2, 1, 2)]
     ELSE IF s = 13 THEN [op |-> "like_bad", o |-> 0, a |-> <<>>, one |-> Chance(Ks, 2, 1, 2), v |-> Pick(Ks, 3, 5)]
     ELSE IF s = 5 THEN GObj(Ks, 5, Among(Ks, 4, <<"tt", "tt", "batch">>), Chance(Ks, 5, 1, 2), GDt(Ks, 6),
                             GShape(Sub(Ks, 7), Chance(Ks, 5, 1, 2), 5, 60))
     ELSE IF s \in {4, 8} /\ q # <<>>
     THEN LET x == R[q[Len(q)]] IN Call2("add", s, q[Len(q)], q[Len(q)]) @@ [form |-> "fn"]
     ELSE GInit(Ks, s)

(***************************************************************************)
(* C20: moments                                                            *)
(***************************************************************************)
GMoments(K, idx) ==
  LET fs == <<"tensor_with_random_cores", "tensor_batch_with_random_cores", "matrix_with_random_cores",
              "matrix_batch_with_random_cores", "random_tensor", "random_tensor_batch", "random_matrix",
              "random_matrix_batch", "random_tensor", "random_matrix",
              "glorot_initializer", "he_initializer", "lecun_initializer">>
      f == fs[(idx % Len(fs)) + 1]
      turn == (idx \div Len(fs)) % 7        \* every function in every way
      mat == f \in MatInit
      fan == f \in {"glorot_initializer", "he_initializer", "lecun_initializer"}
      cores == f \notin MeanZero /\ f \notin {"glorot_initializer", "he_initializer", "lecun_initializer"}
      d == IF turn = 0 /\ fan THEN Among(K, 2, <<1, 1, 2>>)
           ELSE IF turn \in 1..2 THEN Among(K, 2, <<3, 3, 4>>) ELSE Among(K, 2, <<1, 2, 2, 3, 3, 4>>)
      small == IF d <= 2 \/ cores THEN 1 ELSE 2
      n == Tab(d, LAMBDA k : IF mat /\ turn = 0 THEN InR(K, 30 + k, 2, 4)
                             ELSE IF mat THEN InR(K, 30 + k, small, IF d <= 2 THEN 7 ELSE IF d = 3 THEN 5 ELSE 3)
                             ELSE InR(K, 30 + k, small, IF d <= 2 THEN 20 ELSE IF d = 3 THEN 12 ELSE 6))
      m == IF mat THEN Tab(d, LAMBDA k : IF turn = 0 THEN InR(K, 40 + k, 2, 4) ELSE InR(K, 40 + k, small, IF d <= 2 THEN 7 ELSE IF d = 3 THEN 5 ELSE 3)) ELSE <<>>
      none == mat /\ (turn = 0 \/ Chance(K, 15, 1, 5))
      rn == none /\ Chance(K, 16, 1, 2) /\ f \notin {"he_initializer", "lecun_initializer"}
      rkk == IF turn \in 1..2 THEN "vec" ELSE Among(K, 9, <<"num", "vec", "vec", "default">>)
      \* products of many independent rank-one cores are too heavy-tailed
      rkv == IF rkk = "num" THEN <<InR(K, 10, small, 5)>>
             ELSE IF turn \in 1..2 THEN Tab(d + 1, LAMBDA k : Among(K, 50 + k + turn, <<2, 9, 3>>))
             ELSE GRanks(Sub(K, 11), d, 5)
      rkw == IF rkk # "vec" THEN rkv
             ELSE Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1 ELSE MaxI(small, rkv[k]))
      c == [op |-> "moments", o |-> 0, a |-> <<>>, f |-> f, rows |-> n, cols |-> m, rnone |-> rn, cnone |-> none /\ ~rn,
            frac |-> "", rkk |-> rkk, rkv |-> rkw, bsk |-> "num", bsv |-> InR(K, 18, 2, 5),
            mean |-> IF cores /\ turn # 3 THEN Among(K, 19, <<0, 0, 1, -2>>) ELSE 0, nest |-> FALSE, sf |-> Pick(K, 21, 2),
            sn |-> InR(K, 22, 1, 4), sd |-> IF turn = 3 THEN 0 ELSE Among(K, 23, <<1, 1, 2, 3>>), dt |-> Among(K, 24, <<"default", "f64", "f32">>),
            cores |-> cores, seed |-> 100000 + idx]
      v == VarOf(c)
      \* scale so that the variance is about one
      up == IF v[1] >= v[2] THEN 1 ELSE CHOOSE u \in 1..400 : u * u * v[1] >= v[2] /\ (u = 1 \/ (u - 1) * (u - 1) * v[1] < v[2])
  IN c @@ [up |-> up]
GenC20(K, idx, s, R) ==
  IF s > 1 THEN Stop
  ELSE LET c == GMoments(K, idx)
           d == Len(c.rows)
           least == MinSeq(Tab(d, LAMBDA k : (IF c.rnone THEN 1 ELSE c.rows[k]) * (IF c.f \in MatInit /\ ~c.cnone THEN c.cols[k] ELSE 1)))
           \* enough for a standard deviation of the estimate below 4 %
           base == IF c.cores THEN 200 + 2000 \div least
                   ELSE IF d = 1 THEN 200 + 2000 \div least ELSE 1700
       IN c @@ [draws |-> IF c.f \in BatchInit THEN base \div c.bsv ELSE base]

(***************************************************************************)
(* C25: regularizers                                                       *)
(***************************************************************************)
GPenalty(K, x) ==
  LET sc == Among(K, 1, << <<1, 1>>, <<1, 2>>, <<3, 1>>, <<3, 4>>, <<5, 2>>, <<10, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 2>>, <<1, 8>> >>)
  IN [op |-> "reg", o |-> 0, a |-> <<x>>, f |-> Among(K, 2, <<"l2", "l2", "sumsq", "sumabs", "sum", "max">>),
      num |-> sc[1], den |-> sc[2],
      \* a further factor 2^se, divided out of the result
      se |-> IF sc[1] > 0 /\ Chance(K, 4, 1, 4) THEN Among(K, 5, <<-60, -40, -20, 20, 30>>) ELSE 0,
      st |-> IF sc[2] = 1 /\ ~(sc[1] > 0 /\ Chance(K, 4, 1, 4)) THEN Among(K, 3, <<"float", "np32", "np64", "float", "int", "npint">>)
             ELSE Among(K, 3, <<"float", "np32", "np64">>)]
GenC25(K, idx, s, R) ==
  LET i == IF s <= 7 THEN 1 ELSE 8
      Ki == Sub(K, i)
      mat == Chance(Ki, 1, 1, 2)
      nw == GObj(Sub(Ki, 2), i, GKind(Ki, 3), mat, GDt(Ki, 4), GShape(Sub(Ki, 5), mat, 6, 64))
  IN IF s > 14 THEN Stop
     ELSE IF s \in {1, 8} THEN nw
     ELSE IF ~Ok(R, i) THEN Skip
     ELSE IF s = 7 THEN Call1("neg", 7, 1)
     ELSE IF s = 9 /\ Ok(R, 7) THEN GPenalty(Sub(K, s), 7)
     ELSE GPenalty(Sub(K, s), i)

(***************************************************************************)
(* C24: TT dense layers                                                    *)
(***************************************************************************)
GLayer(K, o) ==
  LET d == Among(K, 1, <<1, 2, 2, 2, 3>>)
      n == GModes(Sub(K, 2), d, 8)
      m == GModes(Sub(K, 3), d, 8)
      rkk == Among(K, 4, <<"num", "num", "vec", "default">>)
  IN [op |-> "k_new", o |-> o, a |-> <<>>, rows |-> n, cols |-> m, rkk |-> rkk,
      rkv |-> IF rkk = "num" THEN <<InR(K, 5, 1, 3)>> ELSE GRanks(Sub(K, 6), d, 3),
      act |-> Among(K, 7, <<"none", "none", "relu", "relu", "linear", "square", "abs">>), bias |-> Chance(K, 8, 2, 3),
      ki |-> Among(K, 9, <<"glorot", "he", "lecun", "default", "default">>), bi |-> InR(K, 10, -3, 3),
      bden |-> Among(K, 11, <<1, 2, 4>>), f |-> Pick(K, 12, 3),
      dt |-> Among(K, 13, <<"f32", "default", "default", "f64">>), nm |-> Among(K, 14, <<"", "", "dense", "t">>)]
GInts(K, n, t) == Tab(n, LAMBDA i : InR(K, i, -t, t))
GenC24(K, idx, s, R) ==
  LET Ks == Sub(K, s)
      which == IF Ok(R, 2) /\ Chance(Ks, 1, 1, 3) THEN 2 ELSE 1
      L == R[which]
      d == Len(L.rows)
      n == InR(Ks, 2, 1, 4)
      set == [op |-> "k_set", o |-> which, a |-> <<which>>,
              e |-> Tab(d, LAMBDA k : GInts(Sub(Ks, k), L.rk[k] * L.rows[k] * L.cols[k] * L.rk[k + 1], 2)),
              b |-> IF L.bias THEN GInts(Sub(Ks, 50), ProdSeq(L.cols), 3) ELSE <<>>]
      call == [op |-> "k_call", o |-> 0, a |-> <<which>>, n |-> n, x |-> GInts(Sub(Ks, 60), n * ProdSeq(L.rows), 3), f |-> Pick(Ks, 61, 4)]
      train == [op |-> "k_train", o |-> which, a |-> <<which>>, n |-> n, x |-> GInts(Sub(Ks, 60), n * ProdSeq(L.rows), 2),
                w |-> GInts(Sub(Ks, 62), n * ProdSeq(L.cols), 1), f |-> IF Chance(Ks, 63, 1, 6) THEN 1 ELSE 0]
  IN CASE idx % 10 = 0 -> IF s > 1 THEN Stop ELSE
            LET c == GMoments(K, IF Chance(K, 1, 1, 2) THEN 10 ELSE IF Chance(K, 2, 1, 2) THEN 11 ELSE 12)
                ki == Among(K, 3, <<"glorot", "he", "lecun", "default">>)
                k0 == [c EXCEPT !.f = "keras", !.rnone = FALSE, !.cnone = FALSE, !.seed = 100000 + idx]
                v == VarOf(k0 @@ [ki |-> ki])
            IN [k0 EXCEPT !.up = CHOOSE u \in 1..400 : u * u * v[1] >= v[2] /\ (u = 1 \/ (u - 1) * (u - 1) * v[1] < v[2])]
               @@ [ki |-> ki, draws |-> IF Len(c.rows) = 1 THEN 200 + 2000 \div (c.rows[1] * c.cols[1]) ELSE 500]
       [] s = 1 -> GLayer(Sub(K, 1), 1)
       [] s = 2 -> IF Chance(K, 2, 1, 2) THEN GLayer(Sub(K, 3), 2) ELSE Skip
       [] s = 3 -> IF Chance(K, 4, 1, 4) THEN [GLayer(Sub(K, 5), 3) EXCEPT !.ki = Among(K, 6, <<"xavier", "", "Glorot", "normal">>)] ELSE Skip
       [] s > 14 -> Stop
       [] s \in {4, 5, 11} -> set
       [] s = 8 /\ Ok(R, 1) /\ L.plain /\ Chance(K, 7, 1, 2) ->
            [op |-> "k_copy", o |-> 2, a |-> <<which>>, mv |-> Chance(K, 8, 2, 3), f |-> Pick(K, 9, 2)]
       [] OTHER -> LET k == Pick(Ks, 64, 6)
                   IN IF k \in 0..2 THEN call ELSE IF k \in 3..4 THEN train ELSE [op |-> "k_get", o |-> which, a |-> <<which>>]

(***************************************************************************)
(* C21: histories of variables                                             *)
(***************************************************************************)
VFns == <<"add", "sub", "mul", "norm2", "inner", "full", "full", "round", "orth", "renorm", "proj", "projsum", "grad", "grad">>
GenC21(K, idx, s, R) ==
  LET m == IF Chance(K, 1, 1, 3) THEN "eager" ELSE "v1"
      mat == Chance(K, 2, 1, 3)
      d == Among(K, 3, <<1, 2, 2, 3>>)
      twin == Chance(K, 11, 1, 5)        \* equal cores
      rows == IF twin THEN Const(d, InR(K, 4, 1, 3)) ELSE GModes(Sub(K, 4), d, 12)
      cols == IF ~mat THEN Const(d, 1) ELSE IF twin THEN Const(d, InR(K, 5, 1, 2)) ELSE GModes(Sub(K, 5), d, 4)
      kind == Among(K, 6, <<"tt", "tt", "batch">>)
      bs == IF kind = "batch" THEN InR(K, 7, 1, 3) ELSE 1
      dt == GDt(K, 8)
      rk == IF twin THEN Const(d + 1, 1) ELSE GRanks(Sub(K, 9), d, 3)
      new(o) == GNew(Sub(K, 20 + o), o, kind, mat, dt, bs, rows, cols, rk)
      nw(o) == IF twin THEN [new(o) EXCEPT !.via = 6, !.e = Map(new(o).e, LAMBDA q : Const(d, q[1]))]
               ELSE [new(o) EXCEPT !.via = 0]
      Ks == Sub(K, 40 + s)
      spoil == Pick(K, 10, 6)
      \* register 3 has other cores: ranks, modes, type, number of dimensions
      odd == CASE spoil = 0 -> [GNew(Sub(K, 23), 3, kind, mat, dt, bs, [rows EXCEPT ![d] = @ + 1], cols, rk) EXCEPT !.via = 0]
               [] spoil = 1 -> [GNew(Sub(K, 23), 3, kind, mat, IF dt = "f64" THEN "f32" ELSE "f64", bs, rows, cols, rk) EXCEPT !.via = 0]
               [] spoil = 2 -> [GNew(Sub(K, 23), 3, kind, mat, dt, bs, rows \o <<1>>, cols \o <<1>>, rk \o <<1>>) EXCEPT !.via = 0]
               [] spoil = 3 -> [GNew(Sub(K, 23), 3, kind, mat, dt, bs, rows, cols,
                                     Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1 ELSE rk[k] + 1)) EXCEPT !.via = 0]
               [] spoil = 4 -> [GNew(Sub(K, 23), 3, "batch", mat, dt, bs + 1, rows, cols, rk) EXCEPT !.via = 0]
               [] OTHER -> nw(3)
      handles == SetToSortSeq({i \in DOMAIN R : i # 0 /\ R[i].kind = "var"}, LAMBDA a, b : a < b)
      nodes == SetToSortSeq({i \in DOMAIN R : i # 0 /\ R[i].kind = "node"}, LAMBDA a, b : a < b)
      vals == <<1, 2, 2, 1, 3>>
      names == <<"a", "a", "b", "ab">>
      scopes == << <<>>, <<>>, <<"s">>, <<"s">>, <<"s", "t">>, <<"a">>, <<"sa">> >>
      reuse == m = "v1" /\ Chance(Ks, 1, 2, 5)
      get == [op |-> "v_get", o |-> s, m |-> m, a |-> IF reuse /\ Chance(Ks, 2, 2, 3) THEN <<>>
                                                     ELSE IF Chance(Ks, 3, 1, 12) THEN <<>> ELSE <<Among(Ks, 4, vals)>>,
              scope |-> Among(Ks, 5, scopes), name |-> Among(Ks, 6, names), reuse |-> reuse,
              dt |-> IF reuse THEN (IF Chance(Ks, 7, 5, 6) THEN dt ELSE Among(Ks, 8, <<"default", "f32">>))
                     ELSE Among(Ks, 8, <<"default", "default", dt, "f32">>),
              tr |-> Chance(Ks, 9, 2, 3), coll |-> m = "v1" /\ Chance(Ks, 10, 1, 5),
              reg |-> IF Chance(Ks, 11, 1, 3) THEN Among(Ks, 12, << <<1, 2>>, <<3, 1>>, <<1, 1>> >>) ELSE <<>>,
              f |-> Pick(Ks, 13, 3)]
      h == Among(Ks, 20, handles)
      k == Pick(Ks, 21, 12)
  IN IF s > 24 THEN Stop
     ELSE IF s <= 2 THEN nw(s)
     ELSE IF s = 3 THEN odd
     ELSE IF ~Ok(R, 1) \/ ~Ok(R, 2) \/ ~Ok(R, 3) THEN Stop
     ELSE IF handles = <<>> \/ s = 4 \/ k \in 0..2 THEN get
     ELSE CASE k \in 3..6 -> [op |-> "v_assign", o |-> 0, m |-> m,
                              a |-> <<h, IF Chance(Ks, 22, 1, 8) THEN Among(Ks, 23, handles) ELSE Among(Ks, 23, <<1, 2, 3>>)>>,
                              f |-> Pick(Ks, 24, 2)]
            [] k \in 7..9 -> [op |-> "v_op", o |-> 0, m |-> m, a |-> <<h, IF Chance(Ks, 25, 1, 3) THEN Among(Ks, 26, handles) ELSE Among(Ks, 26, <<1, 2>>)>>,
                              \* one operation is repeated between the assignments
                              f |-> IF Chance(Ks, 29, 2, 3) THEN Among(K, 27, VFns) ELSE Among(Ks, 27, VFns)]
            [] k = 10 -> IF m = "eager" THEN Skip ELSE [op |-> "v_node", o |-> s, m |-> m, a |-> <<h>>]
            [] OTHER -> IF nodes = <<>> THEN [op |-> "v_read", o |-> 0, m |-> m, a |-> <<h>>]
                        ELSE [op |-> "v_eval", o |-> 0, m |-> m, a |-> <<Among(Ks, 28, nodes)>>]
=============================================================================
