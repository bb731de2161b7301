------------------------------ MODULE GenLong -------------------------------
(***************************************************************************)
(* C28: programs with objects of at least 2^44 elements.  Most cores are   *)
(* zero outside one or two positions (the same ones for all objects of a   *)
(* program, so that products do not vanish), a few are dense.              *)
(***************************************************************************)
EXTENDS GenMix

\* the shape of the objects of a program: rows n, columns m
LForm(K) ==
  LET style == Pick(K, 1, 10)
      mat == Pick(K, 2, 10) \in 4..7
      d == CASE mat -> IF style < 5 THEN InR(K, 3, 16, 24) ELSE InR(K, 3, 33, 38)
             [] style < 6 -> InR(K, 3, 22, 36)
             [] style < 9 -> InR(K, 3, 45, 60)
             [] OTHER -> InR(K, 3, 8, 9)
      mode(k) == CASE mat -> IF style < 5 THEN InR(K, 100 + k, 4, 6) ELSE Among(K, 100 + k, <<4, 4, 5>>)
                   [] style < 6 -> InR(K, 100 + k, 4, 8)
                   [] style < 9 -> Among(K, 100 + k, <<2, 2, 3>>)
                   [] OTHER -> InR(K, 100 + k, 50, 90)
      rows == Tab(d, LAMBDA k : mode(k))
      cols == IF Chance(K, 4, 1, 2) THEN rows ELSE Tab(d, LAMBDA k : InR(K, 200 + k, 3, 4))
      rich == {InR(K, 5, 1, d), InR(K, 6, 1, d)}
      twice == {InR(K, 7 + i, 1, d) : i \in 1..4}
  IN [mat |-> mat, d |-> d, n |-> rows, m |-> IF mat THEN cols ELSE Const(d, 1), rich |-> rich, twice |-> twice,
      \* the matrices are small enough for 64 bit row and column numbers
      lin |-> mat /\ style < 5]
LPos(K, n, j) == Tab(Len(n), LAMBDA k : Pick(K, 1000 * j + n[k] * 100 + k, n[k]))
LRk(K, d, r) == Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1 ELSE MinI(r, MinI(k, d + 2 - k)))
\* a core of a program: one or two positions with sparse slices, or dense
LCore(K, F, k, r, n, m, s, i1, j1, i2, j2) ==
  LET dense == k \in F.rich /\ n * m <= 40
      twice == k \in F.twice \/ k \in F.rich \/ r # s
      one(a, b) == IF a = b THEN (IF Chance(K, 7 + a, 1, 8) THEN -1 ELSE 1) ELSE 0
      two(a, b) == IF (r > s /\ a = b + 1) \/ (s > r /\ b = a + 1) THEN 1 ELSE Among(K, 50 + 8 * a + b, <<0, 0, 1, -1>>)
  IN MkCore(r, n, m, s, LAMBDA a, i, j, b :
       IF dense THEN Among(K, 500 + ((a * n + i) * m + j) * s + b, <<0, 1, -1, 0, 1, 2>>)
       ELSE IF i = i1 /\ j = j1 THEN one(a, b)
       ELSE IF twice /\ i = i2 /\ j = j2 THEN two(a, b)
       ELSE 0).e
\* alt[b]: the core of element b that is replaced (0: none)
LNew(K, KP, F, o, kind, mat, dt, bs, rows, cols, rk, same, alt) ==
  LET d == Len(rows)
      i1 == LPos(KP, rows, 1)
      j1 == LPos(KP, cols, 1)
      i2 == LPos(KP, rows, 2)
      j2 == LPos(KP, cols, 2)
  IN [op |-> "new", o |-> o, a |-> <<>>, kind |-> kind, mat |-> mat, dt |-> dt, bs |-> bs, rows |-> rows, cols |-> cols,
      rk |-> rk, via |-> Pick(K, 3, 6),
      e |-> Tab(bs, LAMBDA b : Tab(d, LAMBDA k :
              LCore(Sub(K, IF alt[b] = k THEN 7000 + 10 * b ELSE IF same THEN k + 10 ELSE 100 * b + k + 10),
                    IF alt[b] = k THEN [F EXCEPT !.rich = {k}] ELSE F,
                    k, rk[k], rows[k], cols[k], rk[k + 1], i1[k], j1[k], i2[k], j2[k])))]

\* a position where a train is not (or almost not) zero
LPath(K, t) ==
  LET step(acc, k) ==
        LET c == t[k]
            ok == SelectSeq(Tab(c.n * c.m, LAMBDA q : q),
                            LAMBDA q : \E b \in 1..c.s : \E a \in 1..c.r : acc.v[a] # 0 /\ c.e[((a - 1) * c.n * c.m + q - 1) * c.s + b] # 0)
            q == IF ok = <<>> THEN Pick(K, k, c.n * c.m) ELSE Among(K, k, ok) - 1
        IN [v |-> Map(LRow(acc.v, c, q \div c.m, q % c.m), Sgn), i |-> Append(acc.i, q \div c.m), j |-> Append(acc.j, q % c.m)]
      p == FoldLeft(step, [v |-> <<1>>, i |-> <<>>, j |-> <<>>], Tab(Len(t), LAMBDA k : k))
  IN [i |-> p.i, j |-> p.j]
LNudge(K, t, p) ==        \* another position close to it
  LET k == InR(K, 1, 1, Len(t)) IN [i |-> [p.i EXCEPT ![k] = Pick(K, 2, t[k].n)], j |-> [p.j EXCEPT ![k] = Pick(K, 3, t[k].m)]]
LProbes(K, trs) ==
  Tab(6, LAMBDA q : LET t == trs[1 + Pick(K, q, Len(trs))]
                        p == LPath(Sub(K, 10 + q), t)
                    IN IF q <= 4 THEN p ELSE LNudge(Sub(K, 20 + q), t, p))
\* the call with the positions at which its result is compared
LSeen(K, c, R) ==
  IF c.op \in {"stop", "skip"} \/ \E i \in DOMAIN c.a : ~Ok(R, c.a[i]) THEN c
  ELSE LET e == LongExpect(c @@ [pr |-> <<>>], R)
       IN IF e.k = "obj" THEN c @@ [pr |-> LProbes(K, e.tr)] ELSE c @@ [pr |-> <<>>]

LTop(x) == MaxSeq(Map(x.tr, LAMBDA t : MaxSeq(RanksOf(t))))
LItems(K, x, ints) ==
  Tab(ND(x), LAMBDA k :
    IF Chance(K, 300 + k, ints, 10)
    THEN LET p == LPath(Sub(K, 2), x.tr[1]) IN [k |-> "i", v |-> IF Chance(K, 400 + k, 1, 4) THEN p.i[k] - x.rows[k] ELSE p.i[k]]
    ELSE [k |-> "s", lo |-> Among(K, 500 + k, <<None, None, None, 0, 1, -2>>), hi |-> Among(K, 600 + k, <<None, None, None, None, x.rows[k], -1>>),
          st |-> Among(K, 700 + k, <<None, None, None, 1, 2, -1>>)])
LCap(K, x) ==
  LET r == LRanks(x.tr[1]) IN
  CASE Chance(K, 1, 1, 3) -> [k |-> "none"]
    [] Chance(K, 2, 1, 2) -> [k |-> "num", v |-> MaxSeq(r) + Pick(K, 3, 2)]
    [] OTHER -> [k |-> "vec", v |-> Tab(Len(r), LAMBDA k : r[k] + Pick(K, 10 + k, 2))]

\* one step of a walk over the operations
LStepCall(K, F, o, R) ==
  LET xi == GReg(Sub(K, 1), R, Every)
      x == R[xi]
      yi == GReg(Sub(K, 2), R, LAMBDA y : Compat(x, y))
      y == R[yi]
      bi == GReg(Sub(K, 4), R, LAMBDA z : IsBatch(z))
      mi == GReg(Sub(K, 5), R, LAMBDA z : z.mat)
      pi == IF mi = 0 THEN 0 ELSE GReg(Sub(K, 6), R, LAMBDA z : z.mat /\ z.rows = R[mi].cols /\ Bc(z, R[mi]) # 0)
      tn == GReg(Sub(K, 7), R, LAMBDA z : ~z.mat)
      one == GReg(Sub(K, 8), R, LAMBDA z : ~IsBatch(z) /\ (~z.mat \/ F.lin))
      vi == GReg(Sub(K, 9), R, LAMBDA z : z.mat /\ MaxSeq(z.cols) = 1 /\ z.rows = F.n)
      wi == GReg(Sub(K, 10), R, LAMBDA z : z.mat /\ MaxSeq(z.cols) = 1 /\ z.rows = F.m)
      k == Pick(K, 3, IF F.mat THEN 34 ELSE 30)
  IN CASE k \in 0..2 -> IF yi = 0 THEN Skip ELSE IF LTop(x) + LTop(y) > 8 THEN Skip
                        ELSE Call2(Among(K, 20, <<"add", "sub">>), o, xi, yi) @@ [form |-> Among(K, 21, <<"fn", "op">>)]
       [] k \in 3..4 -> IF yi = 0 THEN Skip ELSE IF LTop(x) * LTop(y) > 9 THEN Skip
                        ELSE Call2("mul", o, xi, yi) @@ [form |-> Among(K, 21, <<"fn", "op">>)]
       [] k = 5 -> Call1("neg", o, xi)
       [] k = 6 -> Call1("scale", o, xi) @@ [num |-> Among(K, 22, <<2, 3, -1, 5, 0>>), den |-> 1, st |-> Among(K, 23, <<"float", "np64", "tf">>),
                                             form |-> Among(K, 24, <<"fn", "left", "right">>)]
       [] k \in 7..9 -> IF LTop(x) > 8 THEN Skip
                        ELSE [op |-> "round", o |-> o, a |-> <<xi>>, cap |-> LCap(Sub(K, 25), x), eps |-> 0, f |-> Pick(K, 26, 3)]
       [] k = 10 -> IF LTop(x) > 8 THEN Skip ELSE [op |-> "orth", o |-> o, a |-> <<xi>>, l2r |-> IsBatch(x) \/ Chance(K, 27, 1, 2), f |-> 0]
       [] k = 11 -> Call1("renorm", o, xi)
       [] k \in 12..13 -> IF tn = 0 THEN Skip
                          ELSE [op |-> "slice", o |-> o, a |-> <<tn>>, f |-> 0, bare |-> FALSE,
                                ix |-> (IF IsBatch(R[tn]) THEN <<Among(K, 28, <<[k |-> "i", v |-> 0], [k |-> "s", lo |-> None, hi |-> None, st |-> None]>>)>> ELSE <<>>)
                                       \o LItems(Sub(K, 29), R[tn], Among(K, 30, <<1, 3, 9>>))]
       [] k \in 14..15 -> IF tn = 0 THEN Skip
                          ELSE LET z == R[tn]
                                   w == ND(z) + (IF IsBatch(z) THEN 1 ELSE 0)
                                   rows == Tab(4, LAMBDA q : LET b == Pick(K, 31 + q, z.bs)
                                                                 p == LPath(Sub(K, 40 + q), z.tr[b + 1])
                                                             IN (IF IsBatch(z) THEN <<b>> ELSE <<>>) \o p.i)
                               IN [op |-> "gather", o |-> 0, a |-> <<tn>>, ish |-> <<4, w>>, ix |-> Flat(rows), f |-> Pick(K, 32, 4)]
       [] k \in 16..18 -> IF yi = 0 THEN Skip ELSE Call2("inner", 0, xi, yi)
       [] k \in 19..21 -> IF one = 0 THEN Skip
                          ELSE LET z == R[one]
                                   at == Tab(5, LAMBDA q : LET p == LPath(Sub(K, 50 + q), z.tr[1])
                                                           IN IF q <= 3 THEN p ELSE LNudge(Sub(K, 60 + q), z.tr[1], p))
                                   \* every position once
                                   fst == SelectSeq(Tab(5, LAMBDA q : q), LAMBDA q : \A t \in 1..(q - 1) : at[t] # at[q])
                               IN [op |-> "l_sparse", o |-> 0, a |-> <<one>>, at |-> Map(fst, LAMBDA q : at[q]),
                                   w |-> Map(fst, LAMBDA q : Among(K, 70 + q, <<1, 2, -1, 3>>))]
       [] k \in 22..23 -> [op |-> Among(K, 33, <<"norm2", "norm">>), o |-> 0, a |-> <<xi>>, diff |-> Chance(K, 34, 1, 2),
                           default |-> FALSE, eps |-> 0, epsden |-> 1]
       [] k = 24 -> [op |-> "l_shape", o |-> 0, a |-> <<xi>>, f |-> Among(K, 35, <<"get_shape", "lazy_shape">>)]
       [] k = 25 -> IF bi = 0 THEN [op |-> "shapefn", o |-> 0, a |-> <<xi>>, f |-> Among(K, 36, <<"raw_shape", "lazy_raw_shape", "tt_ranks", "lazy_tt_ranks">>)]
                    ELSE LET pa == GReg(Sub(K, 37), R, LAMBDA z : IsBatch(z) /\ SameForm(z, R[bi]) /\ z.dt = R[bi].dt)
                         IN IF Chance(K, 38, 1, 3) THEN Call1("gram", 0, bi) ELSE Call2("pair", 0, bi, pa)
       [] k = 26 -> IF bi = 0 THEN Call1("expand", o, xi)
                    ELSE IF Chance(K, 39, 1, 2) THEN Call1("scale_batch", o, bi) @@ [w |-> Tab(R[bi].bs, LAMBDA b : Among(K, 80 + b, <<1, 2, -1, 0>>)), wden |-> 1, f |-> Pick(K, 40, 3)]
                    ELSE Call2("concat", o, bi, bi)
       [] k = 27 -> IF yi = 0 \/ LTop(x) > 4 THEN Skip
                    ELSE IF IsBatch(x) /\ Chance(K, 41, 1, 2)
                    THEN [op |-> "reduce_sum", o |-> o, a |-> <<xi>>, cap |-> 12, cf |-> [k |-> "none"], f |-> 0]
                    ELSE [op |-> "add_n", o |-> o, a |-> <<xi, yi, xi>>, cap |-> 12, f |-> Pick(K, 46, 2)]
       [] k = 28 -> IF Chance(K, 42, 1, 2) THEN Call1("l_var", o, xi) ELSE [op |-> "l_like", o |-> o, a |-> <<xi>>, one |-> Pick(K, 43, 2)]
       [] k = 29 -> Call1("squeeze", o, xi)
       [] k \in 30..31 -> IF pi = 0 THEN Skip ELSE IF LTop(R[mi]) * LTop(R[pi]) > 9 THEN Skip ELSE Call2("matmul", o, mi, pi)
       [] k = 32 -> IF mi = 0 THEN Skip ELSE Call1("transpose", o, mi)
       [] OTHER -> IF vi = 0 \/ wi = 0 THEN Skip
                   ELSE IF IsBatch(R[vi]) /\ IsBatch(R[wi]) /\ Chance(K, 44, 1, 2)
                   THEN [op |-> "pair_mat", o |-> 0, a |-> <<vi, wi, 1>>]
                   ELSE [op |-> "bilin", o |-> 0, a |-> <<1, vi, wi>>, f |-> Among(K, 45, <<"bil", "quad">>)]

GLWalk(K, F, s, R) ==
  LET dt == Among(K, 11, <<"f64", "f64", "f64", "f32">>)
      r == Among(K, 12, <<1, 2, 2, 3>>)
      nw(j, mat, kind, rows, cols) ==
        LNew(Sub(K, 20 + j), Sub(K, 13), F, j, kind, mat, dt, IF kind = "batch" THEN Among(K, 14, <<2, 3, 1>>) ELSE 1, rows, cols,
             LRk(Sub(K, 30 + j), F.d, IF j = 1 THEN r ELSE Among(K, 15 + j, <<1, 2, 2>>)), FALSE, Const(5, 0))
      kd(j) == Among(K, 50 + j, <<"tt", "tt", "batch">>)
      one == Const(F.d, 1)
  IN IF F.mat
     THEN CASE s = 1 -> nw(1, TRUE, "tt", F.n, F.m)
            [] s = 2 -> nw(2, TRUE, kd(2), IF Chance(K, 60, 1, 2) THEN F.n ELSE F.m, IF Chance(K, 60, 1, 2) THEN F.m ELSE F.n)
            [] s = 3 -> nw(3, TRUE, kd(3), F.n, one)
            [] s = 4 -> nw(4, TRUE, kd(4), F.m, one)
            [] s > 17 -> Stop
            [] OTHER -> LStepCall(Sub(K, 100 + s), F, s, R)
     ELSE CASE s = 1 -> nw(1, FALSE, kd(1), F.n, one)
            [] s = 2 -> nw(2, FALSE, kd(2), F.n, one)
            [] s > 14 -> Stop
            [] OTHER -> LStepCall(Sub(K, 100 + s), F, s, R)
\* projections of objects that are tangent
GLRiem(K, F, s, R) ==
  LET d == F.d
      r == Among(K, 12, <<1, 2, 2, 3>>)
      rk == LRk(K, d, r)
      F2 == [F EXCEPT !.twice = @ \cup 1..3 \cup (d - 2)..d]
      nw(o, kind, bs, alt) == LNew(Sub(K, 20), Sub(K, 13), F2, o, kind, F.mat, "f64", bs, F.n, F.m, rk, TRUE, alt)
      bs == InR(K, 14, 1, 3)
      alts(j) == Tab(3, LAMBDA b : IF Chance(K, 5 * j + b, 1, 8) THEN 0 ELSE InR(K, 70 + 5 * j + b, 1, d))
  IN CASE s = 1 -> nw(1, "tt", 1, <<0>>)
       [] s = 2 -> nw(2, "batch", bs, alts(1))
       [] s = 3 -> nw(3, "tt", 1, alts(2))
       [] s = 4 -> Call2("project", 4, 2, 1)
       [] s = 5 -> Call2("project", 5, 3, 1)
       [] s = 6 -> [op |-> "project_sum", o |-> 6, a |-> <<2, 1>>, wt |-> [k |-> "none", f |-> Pick(K, 40, 2)]]
       [] s = 7 -> Call2("pair_proj", 0, 4, 4)
       [] s = 8 -> [op |-> "grad", o |-> 7, a |-> <<1, 3>>, parts |-> <<[p |-> "inner", a |-> <<3>>]>>, comb |-> "lin", cw |-> <<1>>, rep |-> FALSE,
                   check |-> Chance(K, 41, 1, 2), f |-> Pick(K, 42, 2)]
       [] s = 9 -> [op |-> "grad", o |-> 8, a |-> <<1>>, parts |-> <<[p |-> "norm2", a |-> <<>>]>>, comb |-> "lin", cw |-> <<1>>, rep |-> FALSE,
                   check |-> Chance(K, 43, 1, 2), f |-> Pick(K, 44, 2)]
       [] s = 10 -> Call2("inner", 0, 5, 1)
       [] OTHER -> Stop
\* Kronecker products
LUnimod(K, n) ==          \* a triangular matrix with diagonal 1, -1 times a permutation of its rows
  LET sh == Pick(K, 1, n)
      lo == Chance(K, 2, 1, 2)
      el(i, j) == IF i = j THEN Among(K, 10 + i, <<1, 1, -1>>)
                  ELSE IF (i > j) = lo /\ Chance(K, 30 + 8 * i + j, 1, 6) THEN 1 ELSE 0
  IN Tab(n * n, LAMBDA q : el(((q - 1) \div n + sh) % n, (q - 1) % n))
LPower(K, n) ==           \* determinant a power of two
  LET a == LUnimod(K, n)
      f == Among(K, 60, <<1, 1, 2, 4>>)
  IN Tab(n * n, LAMBDA q : IF (q - 1) \div n = 0 THEN f * a[q] ELSE a[q])
LSpd(K, n) ==             \* L L' with a lower triangular L
  LET el(i, j) == IF i < j THEN 0 ELSE IF i = j THEN (IF Chance(K, 10 + i, 1, 40) THEN 2 ELSE 1) ELSE IF Chance(K, 30 + 8 * i + j, 1, 25) THEN Among(K, 5, <<1, -1>>) ELSE 0
  IN Tab(n * n, LAMBDA q : Sum(n, LAMBDA t : el((q - 1) \div n, t - 1) * el((q - 1) % n, t - 1)))
GLKron(K, s, R) ==
  LET pool == Among(K, 1, <<<<2, 4>>, <<3>>, <<2, 3>>, <<4>>, <<2>>>>)
      lg == IF pool = <<2>> THEN 50 ELSE 25
      d == InR(K, 2, lg, lg + 20)
      n == Tab(d, LAMBDA k : Among(K, 10 + k, pool))
      kind == Among(K, 3, <<"tt", "tt", "batch">>)
      bs == IF kind = "batch" THEN 2 ELSE 1
      nw(o, f(_, _)) == [op |-> "new", o |-> o, a |-> <<>>, kind |-> kind, mat |-> TRUE, dt |-> Among(K, 4, <<"f64", "f64", "f32">>), bs |-> bs, rows |-> n, cols |-> n,
                         rk |-> Const(d + 1, 1), via |-> Pick(K, 5, 6),
                         e |-> Tab(bs, LAMBDA b : Tab(d, LAMBDA k : f(Sub(K, 1000 * o + 100 * b + k), n[k])))]
  IN CASE s = 1 -> nw(1, LPower)
       [] s = 2 -> Call1("kslog", 0, 1)
       [] s = 3 -> nw(2, LUnimod)
       [] s = 4 -> Call1("kinv", 3, 2)
       [] s = 5 -> Call1("kslog", 0, 2)
       [] s = 6 -> nw(4, LSpd)
       [] s = 7 -> Call1("kchol", 5, 4)
       [] s = 8 -> Call2("matmul", 6, 2, 3)
       [] s = 9 -> Call1("transpose", 7, 2)
       [] OTHER -> Stop
\* initializers
GLInit(K, F0, s, R) ==
  LET huge == ~F0.mat /\ Chance(K, 7, 1, 2)       \* the product of the norms of the cores is above 2^128
      dt == IF huge THEN "f32" ELSE Among(K, 20, <<"f64", "f32">>)
      F == IF ~huge THEN F0
           ELSE LET dd == InR(K, 8, 95, 110) IN [F0 EXCEPT !.d = dd, !.n = Tab(dd, LAMBDA k : InR(K, 100 + k, 6, 8)), !.m = Const(dd, 1)]
      d == F.d
      p2(j) == Tab(InR(K, 5, 16, 40), LAMBDA k : Among(K, 100 * j + k, <<4, 8, 4>>))
      r2 == p2(1)
      c2 == IF Chance(K, 6, 1, 2) THEN r2 ELSE p2(2)
      f == IF F.mat THEN <<"matrix_ones", "matrix_zeros", "eye">> ELSE <<"tensor_ones", "tensor_zeros">>
      con(o, j) == LET g == IF huge /\ o = 1 THEN "tensor_ones" ELSE Among(K, 10 + j, f)
                   IN [op |-> "l_const", o |-> o, a |-> <<>>, f |-> g, rows |-> F.n, cols |-> IF g = "eye" THEN F.n ELSE F.m, dt |-> dt]
      rnd(j) == [op |-> "l_rand", o |-> 0, a |-> <<>>, f |-> Among(K, 30 + j, <<"glorot_initializer", "he_initializer", "lecun_initializer", "random_matrix", "random_matrix_batch">>),
                 rows |-> r2, cols |-> c2, rank |-> InR(K, 40 + j, 2, 5), seed |-> Pick(K, 50 + j, 10000)]
  IN CASE s = 1 -> con(1, 1)
       [] s = 2 -> con(2, 2)
       [] s = 3 -> Call2("sub", 3, 1, 2) @@ [form |-> "op"]
       [] s = 4 -> Call1("renorm", 4, 1)
       [] s = 5 -> rnd(1)
       [] s = 6 -> rnd(2)
       [] s = 10 -> Call1("expand", 7, 1)
       [] s = 11 -> Call1("renorm", 8, 7)
       [] s = 7 -> LNew(Sub(K, 20), Sub(K, 13), F, 5, "tt", F.mat, dt, 1, F.n, F.m, LRk(K, d, 2), FALSE, <<0>>)
       [] s = 8 -> Call2("mul", 6, 1, 5) @@ [form |-> "fn"]
       [] s = 9 -> Call2("inner", 0, 1, 5)
       [] OTHER -> Stop
GenC28(K, idx, s, R) ==
  LET F == LForm(K)
      t == idx % 8
      c == CASE t \in 0..4 -> GLWalk(K, F, s, R)
             [] t = 5 -> GLRiem(K, F, s, R)
             [] t = 6 -> GLKron(K, s, R)
             [] OTHER -> GLInit(K, F, s, R)
      c2 == IF c.op \in {"stop", "skip", "new", "l_const", "l_rand", "l_var", "l_shape", "shapefn", "grad"} \/ ~Chance(K, 9000 + s, 1, 14) THEN c
            ELSE c @@ [m |-> "graph"]
  IN LSeen(Sub(K, 9500 + s), c2, R)
=============================================================================
