------------------------------- MODULE GenRiem ------------------------------
(***************************************************************************)
(* Programs for C13 .. C16: tangent spaces and automatic differentiation.  *)
(***************************************************************************)
EXTENDS GenNum

\* at least two modes
GShape2(K, mat, budget) ==
  LET sh == GShape(K, mat, 6, budget)
  IN IF Len(sh.rows) >= 2 THEN sh
     ELSE IF mat THEN [rows |-> <<2, 3>>, cols |-> <<2, 2>>] ELSE [rows |-> <<3, 4>>, cols |-> <<1, 1>>]
GSmallEntries(K, n) ==
  LET style == Pick(K, 0, 6)
  IN Tab(n, LAMBDA i : CASE style \in 0..1 -> InR(K, i, -1, 1)
                         [] style = 2 -> InR(K, i, -2, 2)
                         [] style = 3 -> Among(K, i, <<0, 1, 1, 2>>)
                         [] style = 4 -> Among(K, i, <<-1, 1, 2>>)
                         [] OTHER -> IF Chance(K, i, 1, 2) THEN Among(K, i + 5000, <<1, 3, -1, -2>>) ELSE 0)
\* a (probably) full-rank point
GPoint(K, o, mat, dt, sh) ==
  LET d == Len(sh.rows)
      rmax == IF d <= 3 THEN 3 ELSE 2
      r == GRanks(Sub(K, 1), d, rmax)
      wide == Chance(K, 2, 1, 8)             \* ranks the modes do not support
      rk == IF wide THEN r ELSE Trimmed(r, Modes(sh.rows, sh.cols))
  IN [op |-> "new", o |-> o, a |-> <<>>, kind |-> "tt", mat |-> mat, dt |-> dt, bs |-> 1,
      rows |-> sh.rows, cols |-> sh.cols, rk |-> rk, via |-> Pick(K, 3, 6),
      e |-> <<Tab(d, LAMBDA k : GSmallEntries(Sub(K, 10 + k), rk[k] * sh.rows[k] * sh.cols[k] * rk[k + 1]))>>]
GWhat(K, o, kind, mat, dt, bs, sh) ==
  LET d == Len(sh.rows)
      rk == GRanks(Sub(K, 1), d, IF d <= 3 THEN 4 ELSE 2)
  IN [op |-> "new", o |-> o, a |-> <<>>, kind |-> kind, mat |-> mat, dt |-> dt, bs |-> bs,
      rows |-> sh.rows, cols |-> sh.cols, rk |-> rk, via |-> Pick(K, 3, 6),
      e |-> Tab(bs, LAMBDA b : Tab(d, LAMBDA k :
              GSmallEntries(Sub(K, 100 * b + k), rk[k] * sh.rows[k] * sh.cols[k] * rk[k + 1])))]
GVec(K, n) == Tab(n, LAMBDA i : InR(K, i, -3, 3))
\* coefficients for n summands; matrix n x m
GCoef(K, n, m, allowmat) ==
  LET k == Pick(K, 1, 5)
  IN IF k = 0 THEN [k |-> "none", f |-> Pick(K, 2, 2)]
     ELSE IF k <= 2 \/ ~allowmat THEN [k |-> "vec", v |-> Tab(n, LAMBDA i : Among(K, 10 + i, <<1, -1, 2, 0, 1>>)), f |-> Pick(K, 2, 3)]
     ELSE [k |-> "mat", n |-> m, v |-> Tab(n * m, LAMBDA i : Among(K, 10 + i, <<1, -1, 2, 0, 1>>)), f |-> Pick(K, 2, 3)]

\* the shape, type and kinds of a program
RForm(K) == LET mat == Chance(K, 1, 1, 2)
            IN [mat |-> mat, sh |-> GShape2(Sub(K, 2), mat, Among(K, 6, <<48, 48, 64>>)),
                dt |-> Among(K, 3, <<"f64", "f64", "f64", "f64", "f32">>),
                kind |-> GKind(K, 4), bs |-> Among(K, 5, <<1, 2, 3, 4>>)]
Bs(f) == IF f.kind = "batch" THEN f.bs ELSE 1
OtherShape(K, f) ==
  LET d == Len(f.sh.rows)
      k == InR(K, 1, 1, d)
  IN CASE Pick(K, 2, 3) = 0 -> [f.sh EXCEPT !.rows = [@ EXCEPT ![k] = @ + 1]]
       [] Pick(K, 2, 3) = 1 -> [rows |-> Rev(f.sh.rows), cols |-> Rev(f.sh.cols)]
       [] OTHER -> [rows |-> f.sh.rows \o <<1>>, cols |-> f.sh.cols \o <<1>>]

(***************************************************************************)
(* C13.  Registers: 1, 2 points; 3 arguments; 4.. projections              *)
(***************************************************************************)
GProj(K, o, i, p, R) ==
  IF Chance(K, 1, 1, 2) \/ ~Ok(R, i) THEN Call2("project", o, i, p)
  ELSE Call2("project_sum", o, i, p) @@ [wt |-> GCoef(Sub(K, 2), R[i].bs, InR(K, 3, 1, 3), TRUE)]
GenC13(K, idx, s, R) ==
  LET f == RForm(K)
      d == Len(f.sh.rows)
      sq == GModes(Sub(K, 50), d, 6)
  IN CASE s = 1 -> GPoint(Sub(K, 11), 1, f.mat, f.dt, f.sh)
       [] s = 2 -> GPoint(Sub(K, 12), 2, f.mat, f.dt, f.sh)
       [] s = 3 -> GWhat(Sub(K, 13), 3, f.kind, f.mat, f.dt, Bs(f), f.sh)
       [] s = 4 -> Call2("project", 4, 3, 1)
       [] s = 5 -> Call2("project_sum", 5, 3, 1) @@ [wt |-> GCoef(Sub(K, 15), Bs(f), InR(K, 16, 1, 4), TRUE)]
       [] s = 6 -> IF ~f.mat THEN Call2("project", 6, 1, IF Chance(K, 17, 1, 2) THEN 1 ELSE 2)
                   ELSE [op |-> "new", o |-> 6, a |-> <<>>, kind |-> "tt", mat |-> TRUE, dt |-> f.dt, bs |-> 1,
                         rows |-> f.sh.rows, cols |-> f.sh.rows, via |-> 0,
                         rk |-> GRanks(Sub(K, 18), d, 2),
                         e |-> LET rk == GRanks(Sub(K, 18), d, 2)
                               IN <<Tab(d, LAMBDA k : GSmallEntries(Sub(K, 60 + k), rk[k] * f.sh.rows[k] * f.sh.rows[k] * rk[k + 1]))>>]
       [] s = 7 -> IF f.mat THEN [op |-> "project_matmul", o |-> 7, a |-> <<3, 1, 6>>]
                   ELSE GProj(Sub(K, 19), 7, 4, 2, R)
       [] s = 8 -> GProj(Sub(K, 20), 8, Among(K, 21, <<4, 5, 7>>), Among(K, 22, <<1, 1, 2>>), R)
       [] s = 9 -> GProj(Sub(K, 23), 9, Among(K, 24, <<1, 2, 3, 8>>), Among(K, 25, <<1, 2>>), R)
       [] s = 10 -> IF f.mat THEN [op |-> "project_matmul", o |-> 10, a |-> <<Among(K, 26, <<1, 2, 3>>), Among(K, 27, <<1, 2>>), 6>>]
                    ELSE GProj(Sub(K, 28), 10, 3, 2, R)
       \* rejections
       [] s = 11 -> LET k == Pick(K, 29, 4)
                    IN CASE k = 0 -> GWhat(Sub(K, 30), 11, f.kind, f.mat, f.dt, Bs(f), OtherShape(Sub(K, 31), f))
                         [] k = 1 -> GWhat(Sub(K, 30), 11, f.kind, f.mat, IF f.dt = "f64" THEN "f32" ELSE "f64", Bs(f), f.sh)
                         [] k = 2 -> GWhat(Sub(K, 30), 11, "batch", f.mat, f.dt, f.bs, f.sh)
                         [] OTHER -> GWhat(Sub(K, 30), 11, f.kind, ~f.mat, f.dt, Bs(f), [rows |-> f.sh.rows, cols |-> Const(d, 1)])
       [] s = 12 -> LET k == Pick(K, 32, 3)
                        b == Pick(K, 29, 4) = 2           \* a batch as the base point
                    IN CASE k = 0 -> Call2("project", 12, IF b THEN 3 ELSE 11, IF b THEN 11 ELSE 1)
                         [] k = 1 -> Call2("project_sum", 12, IF b THEN 3 ELSE 11, IF b THEN 11 ELSE 1) @@ [wt |-> [k |-> "none", f |-> 0]]
                         [] OTHER -> IF f.mat THEN [op |-> "project_matmul", o |-> 12, a |-> <<IF b THEN 3 ELSE 11, IF b THEN 11 ELSE 1, 6>>]
                                     ELSE Call2("project", 12, IF b THEN 3 ELSE 11, IF b THEN 11 ELSE 1)
       [] s = 13 -> Call2("project", 13, 3, 2)
       \* matrices that do not fit
       [] s = 14 -> IF ~f.mat \/ ~Chance(K, 33, 1, 2) THEN Skip
                    ELSE LET k == InR(K, 35, 1, d)
                             t == Among(K, 34, <<1, 2>>)
                         IN CASE Pick(K, 36, 4) = 0 -> GNew(Sub(K, 37), 14, "tt", TRUE, f.dt, 1, [f.sh.rows EXCEPT ![k] = @ + 1], f.sh.rows, GRanks(Sub(K, 18), d, 2))
                              [] Pick(K, 36, 4) = 1 -> GNew(Sub(K, 37), 14, "tt", TRUE, f.dt, 1, f.sh.rows, [f.sh.rows EXCEPT ![k] = @ + 1], GRanks(Sub(K, 18), d, 2))
                              [] OTHER -> GNew(Sub(K, 37), 14, "tt", TRUE, f.dt, 1, f.sh.rows \o <<t>>, f.sh.rows \o <<t>>, Longer(GRanks(Sub(K, 18), d, 2)))
       [] s = 15 -> IF Ok(R, 14) THEN [op |-> "project_matmul", o |-> 15, a |-> <<3, 1, 14>>] ELSE Skip
       [] OTHER -> Stop

(***************************************************************************)
(* C14.  1 point; 2, 3 arguments; 4, 5 projections; 6 another point, 7 a   *)
(* projection there; 8 .. results                                          *)
(***************************************************************************)
GenC14(K, idx, s, R) ==
  LET f == RForm(K)
      d == Len(f.sh.rows)
      one == Bs(f) = 1 /\ f.kind = "tt"
  IN CASE s = 1 -> GPoint(Sub(K, 11), 1, f.mat, f.dt, f.sh)
       [] s = 2 -> GWhat(Sub(K, 12), 2, f.kind, f.mat, f.dt, Bs(f), f.sh)
       [] s = 3 -> GWhat(Sub(K, 13), 3, IF one THEN GKind(K, 40) ELSE f.kind, f.mat, f.dt,
                         IF one THEN (IF GKind(K, 40) = "tt" THEN 1 ELSE 3) ELSE Bs(f), f.sh)
       \* at times the point itself
       [] s = 4 -> Call2("project", 4, IF one /\ Chance(K, 56, 1, 5) THEN 1 ELSE 2, 1)
       [] s = 5 -> IF one THEN Call2("project_sum", 5, 3, 1) @@ [wt |-> IF ~Ok(R, 3) \/ R[3].kind = "tt" THEN [k |-> "none", f |-> 0]
                                                                       ELSE GCoef(Sub(K, 15), 3, 1, FALSE)]
                   ELSE IF Chance(K, 41, 1, 3)
                        THEN Call2("project_sum", 5, 3, 1) @@ [wt |-> [k |-> "mat", n |-> Bs(f), f |-> Pick(K, 42, 3),
                                                                       v |-> Tab(Bs(f) * Bs(f), LAMBDA i : Among(K, 60 + i, <<1, -1, 0, 2>>))]]
                   ELSE Call2("project", 5, 3, 1)
       [] s = 6 -> GPoint(Sub(K, 16), 6, f.mat, f.dt, f.sh)
       [] s = 7 -> Call2("project", 7, Among(K, 17, <<2, 3, 4>>), 6)
       [] s = 8 -> Call2("pair_proj", 0, 4, 5)
       [] s = 9 -> LET n == InR(K, 18, 1, 4)
                       xs == Tab(n, LAMBDA i : Among(K, 20 + i, <<4, 5>>))
                   IN [op |-> "add_proj", o |-> 9, a |-> xs, cf |-> GCoef(Sub(K, 19), n, Bs(f), f.kind = "batch")]
       [] s = 10 -> Call2("deltas", 10, Among(K, 43, <<4, 5, 9>>), 1) @@ [f |-> Pick(K, 44, 3)]
       [] s = 11 -> Call2("pair_proj", 0, Among(K, 45, <<9, 10, 4>>), Among(K, 46, <<10, 9, 5>>))
       [] s = 12 -> [op |-> "add_proj", o |-> 12, a |-> <<Among(K, 47, <<9, 10>>), Among(K, 48, <<4, 5, 9>>), 10>>,
                     cf |-> GCoef(Sub(K, 49), 3, Bs(f), f.kind = "batch")]
       [] s = 13 -> Call2("t_inner", 0, Among(K, 50, <<12, 9, 10, 4>>), Among(K, 51, <<5, 4, 3, 2, 1>>))
       [] s = 14 -> Call1("t_full", 0, Among(K, 52, <<12, 9, 10, 5>>))
       [] s = 15 -> LET k == Pick(K, 53, 6)
                    IN CASE k = 0 -> Call2("pair_proj", 0, 2, 4)
                         [] k = 1 -> Call2("pair_proj", 0, 5, 3)
                         [] k = 2 -> Call2("pair_proj", 0, 4, 7)
                         [] k = 3 -> [op |-> "add_proj", o |-> 15, a |-> <<4, 7>>, cf |-> GCoef(Sub(K, 54), 2, 1, FALSE)]
                         [] k = 4 -> [op |-> "add_proj", o |-> 15, a |-> <<4, 5, 2>>, cf |-> GCoef(Sub(K, 54), 3, 1, FALSE)]
                         [] OTHER -> Call2("deltas", 15, Among(K, 55, <<1, 2>>), 1) @@ [f |-> 0]
       [] s = 16 -> Call2("pair_proj", 0, 12, 9)
       [] OTHER -> Stop

(***************************************************************************)
(* C15, C16.  Registers: 1 x; 2, 3 objects of the same form; 4 a square    *)
(* matrix on the rows; 5 a matrix rows' x rows, 6 a matrix rows' x cols;   *)
(* 7 a square matrix on the columns; 8 vector; 9 its projection at x       *)
(***************************************************************************)
GMat(K, o, dt, rows, cols) ==
  LET d == Len(rows)
      rk == GRanks(Sub(K, 1), d, 2)
  IN [op |-> "new", o |-> o, a |-> <<>>, kind |-> "tt", mat |-> TRUE, dt |-> dt, bs |-> 1,
      rows |-> rows, cols |-> cols, via |-> 0, rk |-> rk,
      e |-> <<Tab(d, LAMBDA k : Tab(rk[k] * rows[k] * cols[k] * rk[k + 1], LAMBDA i : Among(Sub(K, 2 + k), i, <<0, 1, -1, 1, 0>>)))>>]
GPart(K, f) ==
  LET n == ProdSeq(f.sh.rows) * ProdSeq(f.sh.cols)
      vec == f.mat /\ ProdSeq(f.sh.cols) = 1
      pool == <<"inner", "norm2", "had", "dist", "gather", "sparse", "fullw", "cube", "frob2">>
              \o (IF vec THEN <<"quad", "quad", "quad", "mm">> ELSE <<>>)
              \o (IF f.mat /\ ~vec THEN <<"mm", "gram", "mm", "gram">> ELSE <<>>)
      p == Among(K, 1, pool)
      m == InR(K, 2, 1, 4)
      \* sparse arguments need distinct sorted positions
      ix0 == Tab(m, LAMBDA i : InR(K, 10 + i, 1, n))
      ix == IF p = "gather" THEN ix0 ELSE SortSeq(SetToSeq(Rng(ix0)), LAMBDA a, b : a < b)
  IN [p |-> p, s |-> Among(K, 3, <<1, -1, 2, -3>>),
      a |-> CASE p \in {"inner", "had", "dist"} -> <<Among(K, 4, <<2, 3>>)>>
              [] p = "quad" -> <<4>>
              [] p = "mm" -> <<5, 6>>
              [] p = "gram" -> <<7>>
              [] OTHER -> <<2>>,
      ix |-> ix, w |-> GVec(Sub(K, 5), Len(ix))]
GFn(K, f, op, o, pre) ==
  LET comb == Among(K, 1, <<"lin", "lin", "lin", "sq", "prod">>)
      n == IF comb = "lin" THEN InR(K, 2, 1, 3) ELSE IF comb = "prod" THEN 2 ELSE 1
      parts == Tab(n, LAMBDA i : GPart(Sub(K, 10 + i), f))
      args == SetToSeq({parts[i].a[j] : i \in 1..n, j \in 1..1} \cup {parts[i].a[Len(parts[i].a)] : i \in 1..n})
  IN [op |-> op, o |-> o, a |-> pre \o args, comb |-> comb, parts |-> parts,
      cw |-> IF Chance(K, 6, 1, 15) THEN Const(n, 0) ELSE Tab(n, LAMBDA i : Among(K, 20 + i, <<1, 2, -1, 3>>)),
      check |-> f.dt = "f64" /\ Chance(K, 3, 1, 2), f |-> Pick(K, 4, 2),
      rep |-> Chance(K, 5, 1, 12)]
DForm(K) ==
  LET f == RForm(K)
      \* a column vector
      vec == f.mat /\ Chance(K, 6, 1, 2)
      d == Len(f.sh.rows)
      dt == Among(K, 3, <<"f64", "f64", "f64", "f64", "f64", "f32">>)
  IN IF vec THEN [f EXCEPT !.sh = [rows |-> GModes(Sub(K, 7), d, 16), cols |-> Const(d, 1)], !.dt = dt]
     ELSE [f EXCEPT !.dt = dt]
GenDiff(K, s, f) ==
  LET d == Len(f.sh.rows)
      rows2 == GModes(Sub(K, 50), d, 6)
  IN CASE s = 1 -> GPoint(Sub(K, 11), 1, f.mat, f.dt, f.sh)
       [] s \in 2..3 -> GWhat(Sub(K, 10 + s), s, "tt", f.mat, f.dt, 1, f.sh)
       [] s = 4 -> IF f.mat /\ ProdSeq(f.sh.cols) = 1 THEN GMat(Sub(K, 14), 4, f.dt, f.sh.rows, f.sh.rows) ELSE Skip
       [] s = 5 -> IF f.mat THEN GMat(Sub(K, 15), 5, f.dt, rows2, f.sh.rows) ELSE Skip
       [] s = 6 -> IF f.mat THEN GMat(Sub(K, 16), 6, f.dt, rows2, f.sh.cols) ELSE Skip
       [] s = 7 -> IF f.mat /\ ProdSeq(f.sh.cols) > 1 THEN GMat(Sub(K, 17), 7, f.dt, f.sh.cols, f.sh.cols) ELSE Skip
GenC15(K, idx, s, R) ==
  LET f == DForm(K)
  IN CASE s <= 7 -> GenDiff(K, s, f)
       [] s \in 8..12 -> GFn(Sub(K, 20 + s), f, "grad", 10 + s, <<1>>)
       [] OTHER -> Stop
GenC16(K, idx, s, R) ==
  LET f == DForm(K)
  IN CASE s <= 7 -> GenDiff(K, s, f)
       [] s = 8 -> IF Chance(K, 30, 1, 5) THEN Call1("neg", 8, Among(K, 31, <<1, 2>>))
                   ELSE IF Chance(K, 32, 1, 5) THEN Call2("project", 8, Among(K, 33, <<3, 1>>), Among(K, 34, <<2, 2, 1>>))      \* tangent, often at another point
                   ELSE GWhat(Sub(K, 18), 8, "tt", f.mat, f.dt, 1, f.sh)
       [] s = 9 -> Call2("project", 9, 8, 1)
       [] s \in 10..13 -> GFn(Sub(K, 20 + s), f, "hvp", 10 + s, <<1, 8, 9>>)
       [] OTHER -> Stop
=============================================================================
