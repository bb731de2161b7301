------------------------------- MODULE GenAlg -------------------------------
(***************************************************************************)
(* Programs for C01 .. C09: construction and exact algebra.  GenCnn(K,     *)
(* idx, s, R) is the s-th call of the program with key K when the          *)
(* registers are R.                                                        *)
(***************************************************************************)
EXTENDS GenBase

(***************************************************************************)
(* C01: dense values                                                       *)
(***************************************************************************)
GenC01(K0, idx, s, R) ==
  LET i == (s + 1) \div 2            \* object number
      K == Sub(K0, i)
      mat == Chance(K, 1, 1, 2)
      big == Chance(K, 2, 1, 6)
      sh0 == GShape(Sub(K, 3), mat, IF big THEN 7 ELSE 5, IF big THEN 256 ELSE 96)
      dt == Among(K, 4, <<"f64", "f64", "f32", "f64", "f32", "i32", "i64">>)
      kind == GKind(K, 5)
      long == ~mat /\ Chance(K, 6, 1, 12)
      sh == IF long THEN LET d == InR(K, 7, 8, 12)
                             m == Tab(d, LAMBDA k : Among(K, 20 + k, <<1, 1, 2>>))
                             \* at most 7 twos
                             m2 == Tab(d, LAMBDA k : IF SumSeq(SubSeq(m, 1, k)) - k > 7 THEN 1 ELSE m[k])
                         IN [rows |-> m2, cols |-> Const(d, 1)]
            ELSE sh0
  IN IF s > 8 THEN Stop
     ELSE IF s % 2 = 1 THEN GObj(Sub(K, 9), i, kind, mat, dt, sh)
     ELSE Call1("full", 0, i)

(***************************************************************************)
(* C03: elementwise algebra on two related objects                         *)
(***************************************************************************)
\* y relative to x: usually of the same form
GenPair(K, s, dts, budget) ==
  LET mat == Chance(K, 1, 1, 2)
      sh == GShape(Sub(K, 3), mat, 7, budget)
      dt == GDt(K, 4)
      rel == Pick(K, 5, 24)
      kx == GKind(K, 6)
      ky == GKind(K, 7)
      bx == IF kx = "batch" THEN GBs(K, 8) ELSE 1
      by == IF ky = "tt" THEN 1
            ELSE IF rel \in 0..1 THEN GBs(K, 9)
            ELSE IF kx = "tt" THEN GBs(K, 9)
            ELSE Among(K, 10, <<1, bx, bx, IF bx = 1 THEN 3 ELSE bx>>)
      d == Len(sh.rows)
      \* rel = 2: other mode sizes, 3: other kind, 4: other number of dims
      sh2 == CASE rel = 2 -> [sh EXCEPT !.rows = [sh.rows EXCEPT ![InR(K, 11, 1, d)] = @ + 1]]
               [] rel = 3 /\ mat -> [sh EXCEPT !.cols = Const(d, 1)]
               [] rel = 4 -> [rows |-> sh.rows \o <<1>>, cols |-> sh.cols \o <<1>>]
               [] rel = 5 -> [sh EXCEPT !.rows = Rev(sh.rows), !.cols = Rev(sh.cols)]
               [] rel = 6 /\ mat -> [rows |-> sh.cols, cols |-> sh.rows]
               [] OTHER -> sh
      mat2 == IF rel = 3 THEN ~mat ELSE mat
  IN IF s = 1 THEN GNew(Sub(K, 20), 1, kx, mat, dt, bx, sh.rows, sh.cols,
                        GRanks(Sub(K, 21), d, GRmax(d)))
     ELSE GNew(Sub(K, 30), 2, ky, mat2, dt, by, sh2.rows, sh2.cols,
               GRanks(Sub(K, 31), Len(sh2.rows), GRmax(d)))

GScalar(K, o, x) ==
  LET sc == Among(K, 1, << <<2, 1>>, <<-1, 1>>, <<0, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 4>>,
                           <<5, 1>>, <<-3, 2>>, <<1, 1>>, <<7, 4>>, <<16, 1>>, <<-100, 1>> >>)
      st == IF sc[2] = 1 THEN Among(K, 2, <<"float", "int", "np32", "np64", "npint", "tf", "tfvar">>)
            ELSE Among(K, 2, <<"float", "np32", "np64", "tf", "tfvar">>)
  IN [op |-> "scale", o |-> o, a |-> <<x>>, num |-> sc[1], den |-> sc[2], st |-> st,
      form |-> IF st \in {"float", "int"} THEN Among(K, 3, <<"fn", "right", "left">>)
               ELSE Among(K, 3, <<"fn", "right">>)]

GElementwise(K, o, x, y) ==
  LET k == Pick(K, 50, 12)
  IN CASE k \in 0..2 -> Call2("add", o, x, y) @@ [form |-> Among(K, 51, <<"fn", "op">>)]
       [] k \in 3..4 -> Call2("sub", o, x, y)
       [] k \in 5..7 -> Call2("mul", o, x, y) @@ [form |-> Among(K, 51, <<"fn", "op">>)]
       [] k \in 8..10 -> GScalar(Sub(K, 52), o, x)
       [] OTHER -> Call1("neg", o, x)

GenC03(K, idx, s, R) ==
  IF s > 8 THEN Stop
  ELSE IF s <= 2 THEN GenPair(K, s, <<>>, 64)
  ELSE LET Ks == Sub(K, 40 + s)
           x == IF s <= 4 THEN 1 ELSE InR(Ks, 1, 1, s - 1)
           y == IF s <= 4 THEN 2 ELSE InR(Ks, 2, 1, s - 1)
       IN IF s = 3 THEN Call2("add", 3, 1, 2) @@ [form |-> "fn"]
          ELSE IF s = 4 THEN Call2("mul", 4, 1, 2) @@ [form |-> "fn"]
          ELSE IF s = 5 THEN GScalar(Ks, 5, InR(Ks, 1, 1, 4))
          ELSE GElementwise(Ks, s, x, y)

(***************************************************************************)
(* C02: construction and metadata                                          *)
(***************************************************************************)
SetAt(q, i, x) == [q EXCEPT ![i] = x]
Bump(K, x) == IF x = 1 THEN 2 ELSE IF Chance(K, 99, 1, 2) THEN x - 1 ELSE x + 1
\* one defect (or none) put into a construct call
Mutate(K, c) ==
  LET d == Len(c.cs)
      off == IF c.kind = "batch" THEN 1 ELSE 0
      k == InR(K, 1, 1, d)
      at(i, pos, x) == [c EXCEPT !.cs = SetAt(c.cs, i, SetAt(c.cs[i], pos, x))]
      na == Len(c.cs[k])
  IN CASE Pick(K, 0, 15) = 0 -> [c EXCEPT !.cdt = SetAt(c.cdt, k, IF c.cdt[k] = "f64" THEN "f32" ELSE "f64")]
       [] Pick(K, 0, 15) = 1 -> at(k, off + 1, Bump(K, c.cs[k][off + 1]))
       [] Pick(K, 0, 15) = 2 -> at(k, na, Bump(K, c.cs[k][na]))
       [] Pick(K, 0, 15) = 3 -> at(1, off + 1, 2)
       [] Pick(K, 0, 15) = 4 -> at(d, Len(c.cs[d]), 2)
       [] Pick(K, 0, 15) = 5 -> IF c.kind = "batch" THEN at(k, 1, c.cs[k][1] + 1) ELSE at(1, 1, 3)
       [] Pick(K, 0, 15) = 6 -> [c EXCEPT !.cs = SetAt(c.cs, k, SubSeq(c.cs[k], 1, off + 1) \o <<2>>
                                                                \o SubSeq(c.cs[k], off + 2, na))]
       [] Pick(K, 0, 15) = 7 -> [c EXCEPT !.cs = Map(c.cs, LAMBDA z : IF Chance(K, 2, 1, 2) THEN Tail(z) ELSE <<1>> \o z)]
       [] Pick(K, 0, 15) = 8 -> [c EXCEPT !.hasshp = TRUE,
                                 !.shp = SetAt(c.shp, 1, SetAt(c.shp[1], k, Bump(K, c.shp[1][k])))]
       [] Pick(K, 0, 15) = 9 -> [c EXCEPT !.hasshp = TRUE,
                                 !.shp = LET l == Len(c.shp)
                                         IN SetAt(c.shp, l, SetAt(c.shp[l], k, Bump(K, c.shp[l][k])))]
       [] Pick(K, 0, 15) = 10 -> [c EXCEPT !.hasshp = TRUE,
                                  !.shp = IF Chance(K, 2, 1, 2) \/ d = 1 THEN Map(c.shp, LAMBDA z : z \o <<1>>)
                                          ELSE Map(c.shp, LAMBDA z : SubSeq(z, 1, d - 1))]
       [] Pick(K, 0, 15) = 11 -> [c EXCEPT !.hasshp = TRUE,
                                  !.shp = IF Len(c.shp) = 1 THEN <<c.shp[1], c.shp[1]>> ELSE <<c.shp[1]>>]
       [] Pick(K, 0, 15) = 12 -> [c EXCEPT !.hasrk = TRUE,
                                  !.rkx = LET i == InR(K, 2, 1, d + 1) IN SetAt(c.rkx, i, Bump(K, c.rkx[i]))]
       [] Pick(K, 0, 15) = 13 -> [c EXCEPT !.hasrk = TRUE, !.rkx = SubSeq(c.rkx, 1, d)]
       [] OTHER -> [c EXCEPT !.hasbs = TRUE, !.bsx = c.bsx + 1]
GConstruct(K, o) ==
  LET kind == GKind(K, 1)
      mat == Chance(K, 2, 1, 2)
      d == Among(K, 3, <<1, 2, 2, 3, 3, 4, 5>>)
      bs == GBs(K, 4)
      rows == Tab(d, LAMBDA k : InR(K, 100 + k, 1, 4))
      cols == Tab(d, LAMBDA k : InR(K, 200 + k, 1, 3))
      rk == GRanks(Sub(K, 5), d, 3)
      dt == Among(K, 6, <<"f64", "f32", "f64", "i32", "i64">>)
      c0 == [op |-> "construct", o |-> o, a |-> <<>>, kind |-> kind, via |-> Pick(K, 7, 2),
             cs |-> Tab(d, LAMBDA k : (IF kind = "batch" THEN <<bs>> ELSE <<>>) \o <<rk[k], rows[k]>>
                                      \o (IF mat THEN <<cols[k]>> ELSE <<>>) \o <<rk[k + 1]>>),
             cdt |-> Const(d, dt),
             hasshp |-> Chance(K, 8, 1, 3), shp |-> IF mat THEN <<rows, cols>> ELSE <<rows>>,
             shpf |-> Pick(K, 9, 3), hasrk |-> Chance(K, 10, 1, 3), rkx |-> rk, rkf |-> Pick(K, 11, 4),
             hasbs |-> Chance(K, 12, 1, 3), bsx |-> bs]
      nm == Among(K, 13, <<0, 0, 0, 1, 1, 1, 1, 2>>)
  IN IF nm = 0 THEN c0 ELSE IF nm = 1 THEN Mutate(Sub(K, 14), c0)
     ELSE Mutate(Sub(K, 15), Mutate(Sub(K, 14), c0))
ShapeFns == <<"shape", "lazy_shape", "get_shape", "raw_shape", "lazy_raw_shape", "get_raw_shape",
              "tt_ranks", "lazy_tt_ranks", "get_tt_ranks", "batch_size", "lazy_batch_size", "ndims",
              "is_tt_matrix">>
GShapeFn(K, x) == Call1("shapefn", 0, x) @@ [f |-> Among(K, 1, ShapeFns)]
GenC02(K, idx, s, R) ==
  IF s > 12 THEN Stop
  ELSE IF s <= 5 THEN GConstruct(Sub(K, s), s)
  ELSE IF s = 6 THEN GenPair(Sub(K, 6), 1, <<>>, 48) @@ [note |-> 0]
  ELSE LET ok == {i \in DOMAIN R : i # 0}
           i == IF ok = {} THEN 0 ELSE LET q == SetToSeq(ok) IN Among(Sub(K, s), 3, q)
           Ks == Sub(K, 20 + s)
       IN IF i = 0 THEN Skip
          ELSE IF s = 12 /\ 1 \in ok
          THEN CASE Pick(Ks, 1, 3) = 0 -> Call1("expand", 7, 1)
                 [] Pick(Ks, 1, 3) = 1 -> Call1("squeeze", 7, 1)
                 [] OTHER -> Call2("bcast", 0, 1, i)
          ELSE GShapeFn(Ks, i)

(***************************************************************************)
(* C04: matrix products                                                    *)
(***************************************************************************)
Small(K, d, budget) == GModes(K, d, budget)
GDense(K, n, m) == Tab(n * m, LAMBDA i : InR(K, i, -3, 3))
GMatrix(K, o, kind, bs, dt, rows, cols) ==
  GNew(K, o, kind, TRUE, dt, bs, rows, cols, GRanks(Sub(K, 77), Len(rows), MinI(3, GRmax(Len(rows)))))
GBatchPair(K) ==      \* kinds and batch sizes of two operands
  LET kx == GKind(K, 6)
      ky == GKind(K, 7)
      bx == IF kx = "batch" THEN GBs(K, 8) ELSE 1
      by == IF ky = "tt" THEN 1
            ELSE IF kx = "tt" \/ Chance(K, 9, 1, 10) THEN GBs(K, 10)
            ELSE Among(K, 11, <<1, bx, bx, IF bx = 1 THEN 3 ELSE bx>>)
  IN [kx |-> kx, ky |-> ky, bx |-> bx, by |-> by]
GenC04(K, idx, s, R) ==
  LET d == Among(K, 1, <<1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8>>)
      dt == GDt(K, 2)
      n == Small(Sub(K, 3), d, 8)
      m == Small(Sub(K, 4), d, 8)
      p == Small(Sub(K, 5), d, 8)
      B == GBatchPair(K)
      rel == Pick(K, 12, 20)
      m2 == CASE rel = 0 -> [m EXCEPT ![InR(K, 13, 1, d)] = @ + 1]
              [] rel = 1 -> Rev(m)
              [] rel = 2 -> Const(d, 1)
              [] OTHER -> m
      Ks == Sub(K, 40 + s)
      dense(x, left) ==
        LET inner == IF left THEN NN(R[x]) ELSE MM(R[x])
            good == IF Chance(Ks, 1, 1, 10) THEN inner + 1 ELSE inner
            other == InR(Ks, 2, 1, IF Chance(Ks, 4, 1, 6) THEN 12 ELSE 4)
        IN IF left THEN [op |-> "dense_mat", o |-> 0, a |-> <<x>>, n |-> other, mm |-> good,
                         v |-> GDense(Sub(Ks, 3), other, good)]
           ELSE [op |-> "mat_dense", o |-> 0, a |-> <<x>>, n |-> good, mm |-> other,
                 v |-> GDense(Sub(Ks, 3), good, other)]
  IN CASE s = 1 -> GMatrix(Sub(K, 20), 1, B.kx, B.bx, dt, n, m)
       [] s = 2 -> IF rel = 3 THEN GNew(Sub(K, 21), 2, B.ky, FALSE, dt, B.by, m, Const(d, 1), GRanks(Sub(K, 22), d, 3))
                   ELSE IF rel = 4 THEN GMatrix(Sub(K, 21), 2, B.ky, B.by, dt, m2 \o <<1>>, p \o <<1>>)
                   ELSE GMatrix(Sub(K, 21), 2, B.ky, B.by, dt, m2, p)
       [] s = 3 -> Call2("matmul", 3, 1, 2)
       [] s = 4 -> Call1("transpose", 4, 1)
       [] s = 5 -> Call1("transpose", 5, IF Chance(Ks, 1, 1, 3) THEN 2 ELSE IF Ok(R, 3) THEN 3 ELSE 2)
       [] s = 6 -> dense(InR(Ks, 9, 1, 2), FALSE)
       [] s = 7 -> dense(InR(Ks, 9, 1, 2), TRUE)
       [] s = 8 -> IF Ok(R, 5) /\ Ok(R, 4) /\ Ok(R, 3) /\ Chance(Ks, 1, 1, 2) THEN Call2("matmul", 8, 5, 4) ELSE Call2("matmul", 8, 4, 1)
       [] s = 9 -> IF Ok(R, 8) THEN Call2("matmul", 9, IF Chance(Ks, 1, 1, 2) THEN 8 ELSE 1, IF Chance(Ks, 2, 1, 2) THEN 8 ELSE 4)
                   ELSE Call2("matmul", 9, 1, 4)
       [] OTHER -> Stop

(***************************************************************************)
(* C05: inner products and norms                                           *)
(***************************************************************************)
GSparse(K, x, o) ==
  LET n == Num(x)
      nz == InR(K, 1, 0, MinI(n, IF Chance(K, 2, 1, 6) THEN 24 ELSE 6))
      all == Tab(n, LAMBDA i : i - 1)
      chosen == SelectSeq(all, LAMBDA i : Pick(K, 100 + i, n) < nz)
  IN [ix |-> chosen, w |-> Tab(Len(chosen), LAMBDA i : InR(K, 500 + i, -4, 4))]
GNorm(K, x) ==
  LET df == Chance(K, 1, 1, 3)
      e == Among(K, 2, << <<0, 1>>, <<1, 1>>, <<4, 1>>, <<1, 100000>>, <<100, 100000>> >>)
  IN [op |-> "norm", o |-> 0, a |-> <<x>>, diff |-> Chance(K, 3, 1, 2), default |-> df,
      eps |-> IF df THEN 1 ELSE e[1], epsden |-> IF df THEN 100000 ELSE e[2]]
GenC05(K, idx, s, R) ==
  LET Ks == Sub(K, 40 + s)
      xy == InR(Ks, 5, 1, 2)
  IN CASE s <= 2 -> GenPair(K, s, <<>>, 64)
       [] s = 3 -> Call2("inner", 0, 1, 2)
       [] s = 4 -> Call2("inner", 0, 2, 1)
       [] s = 5 -> Call1("norm2", 0, 1) @@ [diff |-> FALSE]
       [] s = 6 -> Call1("norm2", 0, 2) @@ [diff |-> TRUE]
       [] s = 7 -> GNorm(Ks, xy)
       [] s = 8 -> GNorm(Ks, 3 - xy)
       [] s = 9 -> [op |-> "inner_sparse", o |-> 0, a |-> <<1>>] @@ GSparse(Ks, R[1], 0)
                   @@ [dsh |-> IF Chance(Ks, 3, 1, 6) THEN Among(Ks, 4, <<1, 2, -1, -2>>) ELSE 0]
       [] s = 10 -> Call2("inner", 0, xy, xy)
       [] s = 11 -> Call2("add", 3, 1, 2) @@ [form |-> "fn"]
       [] s = 12 -> IF Ok(R, 3) THEN Call1("norm2", 0, 3) @@ [diff |-> Chance(Ks, 1, 1, 2)] ELSE Skip
       [] s = 13 -> IF Ok(R, 3) THEN Call2("inner", 0, 3, xy) ELSE Skip
       [] OTHER -> Stop

(***************************************************************************)
(* C06: bilinear forms                                                     *)
(***************************************************************************)
GenC06(K, idx, s, R) ==
  LET d == Among(K, 1, <<1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8>>)
      dt == GDt(K, 2)
      n == Small(Sub(K, 3), d, 8)
      m == Small(Sub(K, 4), d, 8)
      p == Small(Sub(K, 5), d, 8)
      B == GBatchPair(K)
      ones == Const(d, 1)
      rel == Pick(K, 12, 24)
      long(j) == Pick(K, 13, 5) + 1 = j /\ rel \in 4..6       \* object j has one more core
      more == Among(K, 14, <<1, 2, 2>>)
      mk(j, o, kind, bs, rows, cols) ==
        IF long(j) THEN GNew(Sub(K, 20 + j), o, kind, TRUE, dt, bs, rows \o <<more>>,
                             cols \o <<IF cols = Const(d, 1) /\ j \in {2, 3, 5} THEN 1 ELSE more>>,
                             Longer(GRanks(Sub(K, 31), d, 2)))
        ELSE GMatrix(Sub(K, 20 + j), o, kind, bs, dt, rows, cols)
  IN CASE s = 1 -> IF rel = 0 THEN GNew(Sub(K, 30), 1, "tt", FALSE, dt, 1, n, ones, GRanks(Sub(K, 31), d, 2))
                   ELSE mk(1, 1, "tt", 1, n, m)                       \* A
       [] s = 2 -> IF rel = 1 THEN GNew(Sub(K, 30), 2, B.kx, FALSE, dt, B.bx, n, ones, GRanks(Sub(K, 31), d, 2))
                   ELSE mk(2, 2, B.kx, B.bx, n, ones)                 \* b, n x 1
       [] s = 3 -> IF rel = 2 THEN GNew(Sub(K, 30), 3, B.ky, FALSE, dt, B.by, m, ones, GRanks(Sub(K, 31), d, 2))
                   ELSE mk(3, 3, B.ky, B.by, m, ones)                 \* c, m x 1
       [] s = 4 -> mk(4, 4, "tt", 1, m, p)                            \* B
       [] s = 5 -> IF rel = 3 THEN GNew(Sub(K, 30), 5, B.ky, FALSE, dt, B.by, p, ones, GRanks(Sub(K, 31), d, 2))
                   ELSE mk(5, 5, B.ky, B.by, p, ones)                 \* y, p x 1
       [] s = 6 -> [op |-> "bilin", o |-> 0, a |-> <<1, 2, 3>>, f |-> Among(K, 50, <<"bil", "bil", "quad">>)]
       [] s = 7 -> [op |-> "bilin2", o |-> 0, a |-> <<2, 1, 4, 5>>]
       [] s = 8 -> Call1("transpose", 6, 1)
       [] s = 9 -> IF Ok(R, 6) THEN [op |-> "bilin", o |-> 0, a |-> <<6, 3, 2>>, f |-> "bil"] ELSE Skip
       [] s = 10 -> IF Ok(R, 6) THEN [op |-> "bilin2", o |-> 0, a |-> <<2, 1, 6, 2>>] ELSE Skip
       [] s = 11 -> [op |-> "bilin", o |-> 0, a |-> <<4, 3, 5>>, f |-> "bil"]
       [] OTHER -> Stop

(***************************************************************************)
(* C07: batch operations                                                   *)
(***************************************************************************)
GWeights(K, n) ==
  LET den == Among(K, 0, <<1, 1, 2>>)
  IN [w |-> Tab(n, LAMBDA i : Among(K, i, <<0, 1, -1, 2, 3, -2, 5, 7>>)), wden |-> den, f |-> Pick(K, 50, 3)]
GenC07(K, idx, s, R) ==
  LET mat == Chance(K, 1, 1, 2)
      vec == mat /\ Chance(K, 2, 1, 2)           \* column vectors, for the matrix forms
      d == Among(K, 3, <<1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8>>)
      rows == GModes(Sub(K, 4), d, IF vec THEN 8 ELSE IF mat THEN 6 ELSE 40)
      cols == IF mat /\ ~vec THEN GModes(Sub(K, 5), d, 6) ELSE Const(d, 1)
      dt == GDt(K, 6)
      rk == GRanks(Sub(K, 7), d, MinI(3, GRmax(d)))
      rel == Pick(K, 8, 20)
      Ks == Sub(K, 40 + s)
      obj(j, r) == GNew(Sub(K, 20 + j), j, "batch", mat, dt, GBs(K, 30 + j), rows, cols, r)
      other == GModes(Sub(K, 9), d, 8)
  IN CASE s = 1 -> obj(1, rk)
       [] s = 2 -> obj(2, rk)
       [] s = 3 -> IF rel = 0 THEN GNew(Sub(K, 23), 3, "tt", mat, dt, 1, rows, cols, rk)
                   ELSE IF rel = 1 /\ d > 1 THEN obj(3, SetAt(rk, 2, rk[2] + 1))
                   ELSE IF rel = 2 THEN GNew(Sub(K, 23), 3, "batch", mat, dt, 2, SetAt(rows, d, rows[d] + 1), cols, rk)
                   ELSE IF rel \in 3..5 THEN GNew(Sub(K, 23), 3, "batch", mat, dt, 2, rows \o <<Among(K, 34, <<1, 2, 2>>)>>,
                                                  cols \o <<IF mat THEN Among(K, 35, <<1, 1, 2>>) ELSE 1>>, Longer(rk))
                   ELSE obj(3, rk)
       [] s = 4 -> [op |-> "concat", o |-> 4, f |-> Pick(K, 60, 2),
                    a |-> Among(K, 61, << <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 2, 1>>, <<1>>, <<1, 1, 2>>,
                                          <<3, 1>>, <<1, 2, 3, 1>> >>)]
       [] s = 5 -> Call1("scale_batch", 5, IF Chance(Ks, 1, 1, 2) /\ Ok(R, 4) THEN 4 ELSE 1)
                   @@ GWeights(Sub(Ks, 2), R[IF Chance(Ks, 1, 1, 2) /\ Ok(R, 4) THEN 4 ELSE 1].bs)
       [] s = 6 -> Call2("pair", 0, 1, 2)
       [] s = 7 -> Call1("gram", 0, IF Chance(Ks, 1, 1, 2) THEN 2 ELSE 1)
       [] s = 8 -> IF ~mat THEN (IF Chance(Ks, 1, 1, 4) THEN GMatrix(Sub(K, 33), 6, "tt", 1, dt, rows, rows) ELSE Skip)
                   ELSE GMatrix(Sub(K, 33), 6, "tt", 1, dt,
                                IF Chance(Ks, 1, 1, 12) THEN other ELSE IF Chance(Ks, 2, 1, 12) THEN Longer(rows) ELSE rows,
                                IF ~Chance(Ks, 1, 1, 12) /\ Chance(Ks, 2, 1, 12) THEN Longer(rows) ELSE rows)
       [] s = 9 -> IF Ok(R, 6) THEN [op |-> "pair_mat", o |-> 0, a |-> <<1, 2, 6>>] ELSE Skip
       [] s = 10 -> IF Ok(R, 6) THEN [op |-> "gram_mat", o |-> 0, a |-> <<2, 6>>] ELSE Skip
       [] s = 11 -> IF Ok(R, 4) THEN Call2("pair", 0, 4, 1) ELSE Call2("pair", 0, 2, 1)
       [] s = 12 -> IF Ok(R, 5) THEN Call1("gram", 0, 5) ELSE Skip
       [] s = 13 -> IF rel \in 1..6 THEN Call2("pair", 0, IF Chance(Ks, 1, 1, 3) THEN 3 ELSE 1, IF Chance(Ks, 1, 1, 3) THEN 1 ELSE 3) ELSE Skip
       [] OTHER -> Stop

(***************************************************************************)
(* C08: slicing                                                            *)
(***************************************************************************)
GItem(K, n, pint) ==
  IF Chance(K, 1, pint, 10)
  THEN [k |-> "i", v |-> IF Chance(K, 11, 1, 40) THEN Among(K, 12, <<n, -n - 1, n + 3, -n - 2>>) ELSE InR(K, 2, -n, n - 1)]
  ELSE IF Chance(K, 3, 1, 4) THEN [k |-> "s", lo |-> None, hi |-> None, st |-> None]
  ELSE [k |-> "s", lo |-> Among(K, 4, <<None, InR(K, 5, -n - 1, n), InR(K, 6, 0, n - 1)>>),
        hi |-> Among(K, 7, <<None, InR(K, 8, -n - 1, n + 1), InR(K, 9, 1, n)>>),
        st |-> Among(K, 10, <<None, None, 1, 1, 2, 3, -1, -2>>)]
GSlice(K, o, x, i) ==
  LET d == ND(x)
      pint == Among(K, 1, <<2, 4, 6, 8, 9>>)
      need == IF IsBatch(x) THEN d + 1 ELSE d
      wrong == Chance(K, 2, 1, 12)
      batchonly == IsBatch(x) /\ Chance(K, 3, 2, 5)
      len == IF wrong THEN Among(K, 4, <<need - 1, need + 1>>) ELSE IF batchonly THEN 1 ELSE need
      size(j) == IF IsBatch(x) THEN (IF j = 1 THEN x.bs ELSE IF j - 1 <= d THEN x.rows[j - 1] ELSE 1)
                 ELSE IF j <= d THEN x.rows[j] ELSE 1
  IN IF len < 1 THEN Skip
     ELSE [op |-> "slice", o |-> o, a |-> <<i>>, bare |-> Chance(K, 5, 1, 2), f |-> Among(K, 6, <<0, 0, 0, 1, 2>>),
           ix |-> Tab(len, LAMBDA j : GItem(Sub(K, 10 + j), size(j), IF IsBatch(x) /\ j = 1 THEN 4 ELSE pint))]
GenC08(K, idx, s, R) ==
  LET mat == Chance(K, 1, 1, 8)
      sh == GShape(Sub(K, 3), mat, 7, 96)
      d == Len(sh.rows)
      \* larger modes make ranges interesting
      rows == IF ~mat /\ d = 1 THEN <<InR(K, 4, 1, 12)>> ELSE sh.rows
      kind == GKind(K, 5)
      Ks == Sub(K, 40 + s)
  IN IF s > 9 THEN Stop
     ELSE IF s = 1 THEN GNew(Sub(K, 20), 1, kind, mat, GDt(K, 6), IF kind = "batch" THEN GBs(K, 7) ELSE 1,
                             rows, sh.cols, GRanks(Sub(K, 21), d, GRmax(d)))
     ELSE LET src == IF s > 5 /\ Ok(R, s - 1) /\ Chance(Ks, 1, 1, 2) THEN s - 1 ELSE 1
          IN GSlice(Sub(Ks, 2), s, R[src], src)

(***************************************************************************)
(* C09: gathering                                                          *)
(***************************************************************************)
GGather(K, x, i) ==
  LET need == ND(x) + (IF IsBatch(x) THEN 1 ELSE 0)
      w == IF Chance(K, 1, 1, 10) THEN MaxI(1, need + Among(K, 2, <<-1, 1>>)) ELSE need
      lead == Among(K, 3, << <<>>, <<1>>, <<2>>, <<4>>, <<7>>, <<2, 3>>, <<1, 1>>, <<3, 1>>, <<2, 2, 2>>, <<1, 3, 2, 1>>, <<0>>, <<31>>, <<3, 7>> >>)
      cnt == ProdSeq(lead)
      size(j) == IF IsBatch(x) THEN (IF j = 1 THEN x.bs ELSE IF j - 1 <= ND(x) THEN x.rows[j - 1] ELSE 1)
                 ELSE IF j <= ND(x) THEN x.rows[j] ELSE 1
  IN [op |-> "gather", o |-> 0, a |-> <<i>>, ish |-> lead \o <<w>>, f |-> Pick(K, 4, 4),
      ix |-> Tab(cnt * w, LAMBDA q : IF Chance(K, 5, 1, 10) /\ Chance(K, 200 + q, 1, cnt * w)
                                     THEN size(((q - 1) % w) + 1) + Pick(K, 6, 2)
                                     ELSE InR(K, 10 + q, 0, size(((q - 1) % w) + 1) - 1))]
GenC09(K, idx, s, R) ==
  LET mat == Chance(K, 1, 1, 12)
      sh == GShape(Sub(K, 3), mat, 7, 96)
      kind == GKind(K, 5)
      d == Len(sh.rows)
      Ks == Sub(K, 40 + s)
  IN IF s > 7 THEN Stop
     ELSE IF s = 1 THEN GNew(Sub(K, 20), 1, kind, mat, Among(K, 6, <<"f64", "f64", "f32", "i32">>), IF kind = "batch" THEN GBs(K, 7) ELSE 1,
                             sh.rows, sh.cols, GRanks(Sub(K, 21), d, GRmax(d)))
     ELSE GGather(Ks, R[1], 1)
=============================================================================
