------------------------------- MODULE GenMix -------------------------------
(***************************************************************************)
(* C22 and C26: walks of the register machine over all operations.         *)
(***************************************************************************)
EXTENDS GenMore

RegsOf(R) == {i \in DOMAIN R : i # 0}
\* a register, preferring recent ones
GReg(K, R, P(_)) ==
  LET q == SortSeq(SetToSeq({i \in RegsOf(R) : P(R[i])}), LAMBDA a, b : a < b)
  IN IF q = <<>> THEN 0
     ELSE IF Chance(K, 1, 1, 2) THEN q[Len(q)] ELSE Among(K, 2, q)
RkMax(x) == MaxSeq(x.rk)
Every(x) == TRUE
Compat(x, y) == SameForm(x, y) /\ Bc(x, y) # 0 /\ x.dt = y.dt
\* an operand for x: usually compatible
GMate(K, R, x) ==
  LET i == GReg(Sub(K, 1), R, LAMBDA y : Compat(x, y))
  IN IF i # 0 /\ Chance(K, 2, 7, 8) THEN i ELSE GReg(Sub(K, 3), R, Every)

\* objects of a small family of shapes, so that operations fit together
GMixShape(K, j) ==
  LET mat == Chance(K, 1, 1, 2)
      d == Among(K, 2, <<1, 2, 2, 2, 3, 3, 3, 4, 5, 7>>)
      n == GModes(Sub(K, 3), d, IF mat THEN 6 ELSE 36)
      m == IF Chance(K, 4, 1, 2) THEN n ELSE GModes(Sub(K, 5), d, 6)
  IN IF ~mat THEN [mat |-> FALSE, rows |-> n, cols |-> Const(d, 1)]
     ELSE [mat |-> TRUE, rows |-> IF j = 2 THEN m ELSE n, cols |-> IF j = 2 THEN n ELSE m]
GMixNew(K, o, j, dt) ==
  LET sh == GMixShape(K, j)
      d == Len(sh.rows)
      kind == GKind(K, 10 + j)
      bsf == Among(K, 20, <<2, 3, 4>>)
      bs == IF kind = "tt" THEN 1 ELSE IF Chance(K, 30 + j, 1, 3) THEN 1 ELSE bsf
  IN GNew(Sub(K, 40 + j), o, kind, sh.mat, dt, bs, sh.rows, sh.cols, GRanks(Sub(K, 50 + j), d, 3))

\* one step producing an object in register o
GObjStep(K, o, R) ==
  LET xi == GReg(Sub(K, 1), R, Every)
      x == R[xi]
      yi == GMate(Sub(K, 2), R, x)
      y == R[yi]
      k == Pick(K, 3, 30)
      bi == GReg(Sub(K, 4), R, LAMBDA z : IsBatch(z))
      mi == GReg(Sub(K, 5), R, LAMBDA z : z.mat)
      pi == IF mi = 0 THEN 0 ELSE GReg(Sub(K, 6), R, LAMBDA z : z.mat /\ z.rows = R[mi].cols /\ Bc(z, R[mi]) # 0)
  IN CASE k \in 0..3 -> IF ND(x) = ND(y) /\ RkMax(x) + RkMax(y) > 14 THEN Skip
                        ELSE Call2(IF k = 3 THEN "sub" ELSE "add", o, xi, yi) @@ [form |-> "op"]
       [] k \in 4..6 -> IF ND(x) = ND(y) /\ RkMax(x) * RkMax(y) > 16 THEN Skip
                        ELSE Call2("mul", o, xi, yi) @@ [form |-> Among(K, 7, <<"fn", "op">>)]
       [] k \in 7..8 -> GScalar(Sub(K, 8), o, xi)
       [] k = 9 -> Call1("neg", o, xi)
       [] k \in 10..12 -> IF mi = 0 THEN Skip
                          ELSE IF pi # 0 /\ RkMax(R[mi]) * RkMax(R[pi]) <= 16 THEN Call2("matmul", o, mi, pi)
                          ELSE IF Chance(K, 9, 1, 3) THEN Call2("matmul", o, xi, yi)
                          ELSE Skip
       [] k \in 13..14 -> Call1("transpose", o, IF mi # 0 /\ Chance(K, 9, 5, 6) THEN mi ELSE xi)
       [] k \in 15..17 -> GRound(Sub(K, 10), o, x, xi, Among(K, 11, <<0, 0, 1, 2, 9, 6, 7>>))
       [] k = 18 -> [op |-> "orth", o |-> o, a |-> <<xi>>, l2r |-> Chance(K, 12, 2, 3), f |-> 0]
       [] k = 19 -> Call1("renorm", o, xi)
       [] k \in 20..22 -> GSlice(Sub(K, 13), o, x, xi)
       [] k = 23 -> Call1("expand", o, xi)
       [] k = 24 -> Call1("squeeze", o, xi)
       [] k \in 25..26 -> IF bi = 0 THEN Skip
                          ELSE LET ci == GReg(Sub(K, 14), R, LAMBDA z : IsBatch(z) /\ SameForm(z, R[bi]) /\ z.rk = R[bi].rk)
                               IN [op |-> "concat", o |-> o, a |-> <<bi, IF Chance(K, 15, 1, 8) THEN yi ELSE ci>>, f |-> 0]
       [] k = 27 -> IF bi = 0 THEN Skip ELSE Call1("scale_batch", o, bi) @@ GWeights(Sub(K, 16), R[bi].bs)
       [] OTHER -> Call1("cast", o, xi) @@ [dt |-> Among(K, 17, <<"f64", "f32", "f64">>)]

\* one step producing numbers
GNumStep(K, R) ==
  LET xi == GReg(Sub(K, 1), R, Every)
      x == R[xi]
      yi == GMate(Sub(K, 2), R, x)
      k == Pick(K, 3, 14)
      bi == GReg(Sub(K, 4), R, LAMBDA z : IsBatch(z))
      mi == GReg(Sub(K, 5), R, LAMBDA z : z.mat)
      dm(i, left) == LET n == IF left THEN NN(R[i]) ELSE MM(R[i])
                     IN IF left THEN [op |-> "dense_mat", o |-> 0, a |-> <<i>>, n |-> 2, mm |-> n, v |-> GDense(Sub(K, 6), 2, n)]
                        ELSE [op |-> "mat_dense", o |-> 0, a |-> <<i>>, n |-> n, mm |-> 2, v |-> GDense(Sub(K, 6), 2, n)]
  IN CASE k \in 0..1 -> Call1("full", 0, xi)
       [] k \in 2..3 -> Call2("inner", 0, xi, yi)
       [] k = 4 -> Call1("norm2", 0, xi) @@ [diff |-> Chance(K, 7, 1, 2)]
       [] k = 5 -> GNorm(Sub(K, 8), xi)
       [] k = 6 -> IF bi = 0 THEN Skip ELSE Call1("gram", 0, bi)
       [] k = 7 -> IF bi = 0 \/ ~IsBatch(R[yi]) THEN Skip ELSE Call2("pair", 0, bi, yi)
       [] k = 8 -> GGather(Sub(K, 9), x, xi)
       [] k = 9 -> IF IsBatch(x) THEN Skip ELSE [op |-> "inner_sparse", o |-> 0, a |-> <<xi>>] @@ GSparse(Sub(K, 10), x, 0)
       [] k = 10 -> IF mi = 0 THEN Skip ELSE dm(mi, TRUE)
       [] k = 11 -> IF mi = 0 THEN Skip ELSE dm(mi, FALSE)
       [] k = 12 -> Call2("bcast", 0, xi, yi)
       [] OTHER -> GShapeFn(Sub(K, 11), xi)

GenC26(K, idx, s, R) ==
  IF s > 20 THEN Stop
  ELSE IF s <= 3 THEN GMixNew(K, s, s, IF Chance(K, 60, 1, 4) THEN "f32" ELSE "f64")
  ELSE IF RegsOf(R) = {} THEN Stop
  ELSE IF s > 18 \/ Chance(K, 100 + s, 1, 8) THEN Call1("full", 0, GReg(Sub(K, 200 + s), R, Every))
  ELSE GObjStep(Sub(K, 300 + s), s, R)

\* mixed dtypes: about half single precision, some objects of the other type
GMixedCores(K, o) ==
  LET d == InR(K, 1, 2, 4)
      k == InR(K, 2, 1, d)
      dt == Among(K, 3, <<"f64", "f32">>)
      kind == GKind(K, 4)
      rk == GRanks(Sub(K, 5), d, 3)
      two == Among(K, 6, <<"f64", "f32", "f32", "i32">>)
  IN [op |-> "construct", o |-> o, a |-> <<>>, kind |-> kind, via |-> Pick(K, 7, 2),
      cs |-> Tab(d, LAMBDA i : (IF kind = "batch" THEN <<2>> ELSE <<>>) \o <<rk[i], 2, rk[i + 1]>>),
      cdt |-> [Const(d, dt) EXCEPT ![k] = two],
      hasshp |-> FALSE, shp |-> <<>>, shpf |-> 0, hasrk |-> FALSE, rkx |-> <<>>, rkf |-> 0, hasbs |-> FALSE, bsx |-> 0]
GenWalk(K, idx, s, R) ==
  IF s > 18 THEN Stop
  ELSE IF s <= 3 THEN GMixNew(K, s, s, IF Chance(K, 60, 1, 2) \/ (s = 3 /\ Chance(K, 61, 1, 4)) THEN "f32" ELSE "f64")
  ELSE IF s = 4 THEN Call1("cast", 4, GReg(Sub(K, 62), R, Every))
                     @@ [dt |-> Among(K, 63, <<"f64", "f32", "f32", "i32", "i64">>)]
  ELSE IF s = 5 THEN GMixedCores(Sub(K, 64), 25)
  ELSE IF RegsOf(R) = {} THEN Stop
  ELSE LET Q == [i \in DOMAIN R \ {25} |-> R[i]]
           F == [i \in {i \in DOMAIN Q : i = 0 \/ Q[i].dt \in {"f32", "f64"}} |-> Q[i]]
       IN IF RegsOf(F) = {} THEN Stop
          ELSE IF Chance(K, 100 + s, 2, 5) THEN GNumStep(Sub(K, 200 + s), F)
          ELSE GObjStep(Sub(K, 300 + s), s, F)

\* every third program is one of another property
GenC22(K, idx, s, R) ==
  LET k == (idx \div 3) % 18
  IN IF idx % 3 # 0 THEN GenWalk(K, idx, s, R)
     ELSE CASE k = 0 -> GenC07(K, idx, s, R)
            [] k = 1 -> GenC08(K, idx, s, R)
            [] k \in {2, 3} -> GenC13(K, idx, s, R)
            [] k \in {4, 5} -> GenC14(K, idx, s, R)
            [] k \in {6, 7} -> GenC15(K, idx, s, R)
            [] k = 8 -> GenC16(K, idx, s, R)
            [] k = 9 -> GenC17(K, idx, s, R)
            [] k = 10 -> GenC18(K, idx, s, R)
            [] k \in {11, 14, 15, 16, 17} -> GenC19(K, idx, s, R)
            [] k = 12 -> GenC25(K, idx, s, R)
            [] OTHER -> GenC06(K, idx, s, R)

(***************************************************************************)
(* C23: programs of the other properties, compiled                         *)
(***************************************************************************)
\* batches of one and of several elements, of sizes known or not
GenBatches(K, s) ==
  LET mat == Chance(K, 1, 1, 2)
      sh == GShape(Sub(K, 3), mat, 4, 36)
      sizes == Among(K, 5, << <<1, 3>>, <<3, 1>>, <<2, 2>>, <<1, 1>>, <<1, 4>>, <<2, 1>> >>)
      Ks == Sub(K, 40 + s)
  IN IF s > 9 THEN Stop
     ELSE IF s <= 2 THEN GNew(Sub(K, 20 + s), s, "batch", mat, "f64", sizes[s], sh.rows, sh.cols, GRanks(Sub(K, 30 + s), Len(sh.rows), 3))
     ELSE LET x == InR(Ks, 1, 1, 2)
              y == IF Chance(Ks, 2, 3, 4) THEN 3 - x ELSE x
          IN Call2(Among(Ks, 3, <<"mul", "mul", "add", "sub", "inner", "concat">>), s, x, y) @@ [form |-> Among(Ks, 4, <<"fn", "op">>), f |-> 0]

EagerOps == {"new", "stop", "skip", "construct", "cast", "moments", "init"}
GenC23(K, idx, s, R) ==
  LET k == idx % 30
      c == CASE k = 0 -> GenC01(K, idx, s, R)
             [] k \in {1, 2, 22} -> GenC03(K, idx, s, R)
             [] k = 29 -> GenBatches(K, s)
             [] k = 3 -> GenC04(K, idx, s, R)
             [] k \in {4, 23, 28} -> GenC05(K, idx, s, R)
             [] k = 5 -> GenC06(K, idx, s, R)
             [] k = 6 -> GenC07(K, idx, s, R)
             [] k = 7 -> GenC08(K, idx, s, R)
             [] k = 8 -> GenC09(K, idx, s, R)
             [] k \in {9, 24, 26, 27} -> GenC10(K, idx, s, R)
             [] k \in {10, 25} -> GenC11(K, idx, s, R)
             [] k = 11 -> GenC12(K, idx, s, R)
             [] k = 12 -> GenC13(K, idx, s, R)
             [] k = 13 -> GenC14(K, idx, s, R)
             [] k = 14 -> GenC15(K, idx, s, R)
             [] k = 15 -> GenC16(K, idx, s, R)
             [] k = 16 -> GenC17(K, idx, s, R)
             [] k = 17 -> GenC18(K, idx, s, R)
             [] k \in {20, 21} -> GenC02(K, idx, s, R)
             [] k = 18 -> GenC25(K, idx, s, R)
             [] OTHER -> GenC26(K, idx, s, R)
      dyn == Chance(K, 9000, 1, 2)
  IN IF c.op \in EagerOps \/ Chance(K, 9500 + s, 1, 8) THEN c     \* some calls are not compiled
     ELSE c @@ [m |-> IF dyn /\ c.op \notin {"squeeze", "bcast"} /\ ~(c.op = "shapefn" /\ c.f \in {"get_shape", "get_raw_shape", "get_tt_ranks"}) THEN "dyn" ELSE "graph", g |-> Pick(K, 9001 + s, 3)]

(***************************************************************************)
(* C27: programs of other properties, differentiated.  A program ends in   *)
(* one to three derivatives of one of its results with respect to one of   *)
(* its objects.                                                            *)
(***************************************************************************)
GenC27(K, idx, s, R) ==
  LET k == idx % 18
  IN CASE k = 0 -> GenC01(K, idx, s, R)
       [] k \in {1, 2} -> GenC03(K, idx, s, R)
       [] k \in {3, 4} -> GenC04(K, idx, s, R)
       [] k \in {5, 6} -> GenC05(K, idx, s, R)
       [] k \in {7, 8} -> GenC06(K, idx, s, R)
       [] k \in {9, 10} -> GenC07(K, idx, s, R)
       [] k \in {11, 12} -> GenC08(K, idx, s, R)
       [] k = 13 -> GenC09(K, idx, s, R)
       [] k = 14 -> GenC25(K, idx, s, R)
       [] OTHER -> GenC26(K, idx, s, R)

\* the call that made register r before call i (0: none)
Maker(p, i, r) == LET q == {j \in 1..(i - 1) : p[j].o = r} IN IF q = {} THEN 0 ELSE CHOOSE j \in q : \A k \in q : k <= j
\* the calls that call i depends on, with itself
Needs(p, i) ==
  LET step(acc, j) == LET l == i + 1 - j IN IF l \in acc THEN acc \cup {Maker(p, l, r) : r \in Range(p[l].a)} ELSE acc
  IN FoldLeft(step, {i}, Tab(i, LAMBDA j : j))
Weighted(K, n) ==
  IF n <= 2 \/ Chance(K, 1, 1, 3) THEN Tab(n, LAMBDA i : InR(K, 10 + i, -2, 2))
  ELSE LET a == InR(K, 2, 1, n)
           b == InR(K, 3, 1, n)
       IN Tab(n, LAMBDA i : IF i = a THEN 1 ELSE IF i = b THEN 2 ELSE 0)
GDiff(K, p) ==
  LET ok(i) == LET q == Needs(p, i) IN 0 \notin q /\ \A j \in q : p[j].op \in DObjOps \cup DNumOps
      T == SortSeq(SetToSeq({i \in 1..Len(p) : ok(i)}), LAMBDA a, b : a < b)
      nums == SelectSeq(T, LAMBDA i : p[i].op \in DNumOps)
      rare == SelectSeq(T, LAMBDA i : p[i].op \in {"inner_sparse", "mat_dense", "dense_mat", "scale_batch", "scale", "gram_mat", "pair_mat", "reg", "expand"})
      late == IF rare # <<>> /\ Chance(K, 11, 1, 3) THEN rare ELSE IF nums # <<>> /\ Chance(K, 6, 1, 2) THEN nums ELSE SelectSeq(T, LAMBDA i : p[i].op # "new")
      i == IF late # <<>> THEN Among(K, 1, late) ELSE Among(K, 1, T)
      q == Needs(p, i)
      sub == Map(SelectSeq(Tab(Len(p), LAMBDA j : j), LAMBDA j : j \in q),
                 LAMBDA j : IF p[j].op \in {"norm", "norm2"} THEN [p[j] EXCEPT !.diff = TRUE] ELSE p[j])
      seq == IF p[i].op \in DNumOps THEN sub
             ELSE Append(sub, IF Chance(K, 2, 1, 4) THEN Call1("norm2", 0, p[i].o) @@ [diff |-> TRUE] ELSE Call1("full", 0, p[i].o))
      news == SelectSeq(sub, LAMBDA c : c.op = "new" /\ c.dt \in {"f32", "f64"})
      nw == Among(K, 3, news)
      e == Outcome(seq)
  IN IF T = <<>> THEN Skip
     ELSE IF news = <<>> \/ e.k # "num" THEN Skip
     ELSE LET args == SelectSeq(Tab(Len(seq), LAMBDA j : j), LAMBDA j : seq[j].op \in ArgOps)
              at == Among(K, 7, args)
              n == CASE seq[at].op = "scale" -> 1
                     [] seq[at].op \in {"scale_batch", "inner_sparse"} -> Len(seq[at].w)
                     [] OTHER -> Len(seq[at].v)
          IN IF args # <<>> /\ Chance(K, 8, 1, 2)
             THEN IF n = 0 THEN Skip
                  ELSE [op |-> "diff", o |-> 0, a |-> <<>>, seq |-> seq, x |-> nw.o, arg |-> at, f |-> Among(K, 4, <<0, 1, 2>>),
                        w |-> Weighted(Sub(K, 5), Len(e.val)),
                        D |-> Tab(n, LAMBDA z : Among(Sub(K, 9), z, <<1, -1, 0, 2, 1>>))]
     ELSE [op |-> "diff", o |-> 0, a |-> <<>>, seq |-> seq, x |-> nw.o, arg |-> 0, f |-> Pick(K, 4, 4),
           w |-> Weighted(Sub(K, 5), Len(e.val)),
           D |-> Tab(nw.bs, LAMBDA b : Tab(Len(nw.rows), LAMBDA k :
                   Tab(Len(nw.e[b][k]), LAMBDA j : Among(Sub(K, 10 * b + k + 100), j, <<1, -1, 0, 2, 1>>))))]
GDiffs(K, p) ==
  LET cs == Tab(4, LAMBDA j : GDiff(Sub(K, 9300 + j), p))
  IN SelectSeq(cs, LAMBDA c : c.op # "skip" /\ Expect(c, <<>>).k = "num")
=============================================================================
