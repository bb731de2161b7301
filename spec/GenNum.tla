------------------------------- MODULE GenNum -------------------------------
(***************************************************************************)
(* Programs for C10 .. C12: conversion, rounding, re-gauging.              *)
(***************************************************************************)
EXTENDS GenAlg

(***************************************************************************)
(* Objects with known singular value decomposition: q rank-one terms whose *)
(* vectors are orthogonal in every mode, norms strictly decreasing.        *)
(***************************************************************************)
\* a frame: sequence of n mutually orthogonal integer vectors of length n
FrameI(n) == Tab(n, LAMBDA i : Tab(n, LAMBDA j : IF i = j THEN 1 ELSE 0))
Frame2 == << <<1, 1>>, <<1, -1>> >>
Frame3 == << <<2, 2, -1>>, <<2, -1, 2>>, <<-1, 2, 2>> >>
Frame4 == << <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>
\* of length n >= base, padded with zeros; rotated to start anywhere
GFrame(K, n) ==
  LET base == IF n >= 4 /\ Chance(K, 1, 1, 2) THEN Frame4
              ELSE IF n >= 3 /\ Chance(K, 2, 1, 2) THEN Frame3
              ELSE IF n >= 2 /\ n < 3 /\ Chance(K, 3, 1, 2) THEN Frame2
              ELSE FrameI(n)
      b == Len(base)
      pad == Tab(b, LAMBDA i : base[i] \o Const(n - b, 0))
      rest == Tab(n - b, LAMBDA i : Tab(n, LAMBDA j : IF j = b + i THEN 1 ELSE 0))
      sh == Pick(K, 4, n)
      sgn == Tab(n, LAMBDA i : IF Chance(K, 10 + i, 1, 2) THEN 1 ELSE -1)
      \* only vectors of the base frame have equal norms: never mix
      all == IF b = n THEN pad ELSE pad
  IN Tab(b, LAMBDA i : DScale(sgn[i], all[((i - 1 + sh) % b) + 1]))
\* q terms over modes ps (combined modes), all >= 1
GTerms(K, ps, qmax) ==
  LET d == Len(ps)
      F == Tab(d, LAMBDA k : GFrame(Sub(K, k), ps[k]))
      q == MinI(qmax, MinSeq(Map(F, LAMBDA f : Len(f))))
      w == Among(K, 50, << <<8, 4, 2, 1>>, <<7, 4, 2, 1>>, <<9, 3, 1, 0>>, <<5, 3, 2, 1>>, <<6, -4, 2, -1>>,
                           <<-3, 2, 1, 0>> >>)
      qq == Len(SelectSeq(SubSeq(w, 1, MinI(q, 4)), LAMBDA z : z # 0))
  IN Tab(qq, LAMBDA i : Tab(d, LAMBDA k : IF k = 1 THEN DScale(w[i], F[1][i]) ELSE F[k][i]))
\* integer matrix G (q x p, p >= q) and H (p x q) with G H = I
GGauge(K, q) ==
  LET extra == Pick(K, 1, 2)
      p == q + extra
      u(i, j) == IF i = j THEN 1 ELSE IF j = i + 1 THEN InR(K, 10 + i, -1, 1) ELSE 0
      \* inverse of the unit upper bidiagonal matrix
      ui(i, j) == IF i > j THEN 0 ELSE IF i = j THEN 1
                  ELSE FoldLeft(LAMBDA acc, t : acc * (-u(t, t + 1)), 1, Tab(j - i, LAMBDA z : i + z - 1))
  IN [p |-> p,
      G |-> Tab(q * p, LAMBDA z : LET i == (z - 1) \div p + 1
                                      j == ((z - 1) % p) + 1
                                  IN IF j <= q THEN u(i, j) ELSE InR(K, 50 + i, -1, 1)),
      H |-> Tab(p * q, LAMBDA z : LET i == (z - 1) \div q + 1
                                      j == ((z - 1) % q) + 1
                                  IN IF i <= q THEN ui(i, j) ELSE 0)]
\* cores representing the sum of the terms; gauge K fixes the bond sizes, so
\* that the elements of a batch may share them
TermCores(K, terms, ps) ==
  LET d == Len(ps)
      q == Len(terms)
      ga == Tab(d - 1, LAMBDA k : GGauge(Sub(K, k), q))
      \* superdiagonal core k: q x p x q (boundary: 1)
      raw(k) == MkCore(IF k = 1 THEN 1 ELSE q, ps[k], 1, IF k = d THEN 1 ELSE q,
                       LAMBDA a, i, j, b :
                         IF d = 1 THEN Sum(q, LAMBDA t : terms[t][1][i + 1])
                         ELSE IF k = 1 THEN terms[b + 1][1][i + 1]
                         ELSE IF k = d THEN terms[a + 1][d][i + 1]
                         ELSE IF a = b THEN terms[a + 1][k][i + 1] ELSE 0)
      right(c, k) == IF k = d THEN c ELSE Join(c, Core(q, 1, 1, ga[k].p, ga[k].G))
      left(c, k) == IF k = 1 THEN c ELSE Join(Core(ga[k - 1].p, 1, 1, q, ga[k - 1].H), c)
  IN Tab(d, LAMBDA k : left(right(raw(k), k), k))
\* a `new' call for a batch of objects with known decomposition, and the terms
GSvdNew(K, o, kind, mat, dt, bs, rows, cols) ==
  LET ps == Modes(rows, cols)
      T0 == Tab(bs, LAMBDA b : GTerms(Sub(K, b), ps, 4))
      qq == MinSeq(Map(T0, LAMBDA t : Len(t)))
      T == Map(T0, LAMBDA t : SubSeq(t, 1, qq))
      cs == Tab(bs, LAMBDA b : TermCores(Sub(K, 99), T[b], ps))
  IN [call |-> [op |-> "new", o |-> o, a |-> <<>>, kind |-> kind, mat |-> mat, dt |-> dt, bs |-> bs,
                rows |-> rows, cols |-> cols, rk |-> RanksOf(cs[1]), via |-> Pick(K, 98, 6),
                e |-> Tab(bs, LAMBDA b : Tab(Len(rows), LAMBDA k : cs[b][k].e))],
      parts |-> T]

(***************************************************************************)
(* Caps                                                                    *)
(***************************************************************************)
GCap(K, d, rk, style) ==
  CASE style = 0 -> [k |-> Among(K, 1, <<"none", "inf">>)]
    [] style = 1 -> [k |-> "num", v |-> MaxSeq(rk)]
    [] style = 2 -> [k |-> "vec", v |-> rk]
    [] style = 3 -> [k |-> "num", v |-> InR(K, 2, 1, MaxI(1, MaxSeq(rk) - 1))]
    [] style = 4 -> [k |-> "vec", v |-> Tab(d + 1, LAMBDA i : IF i = 1 \/ i = d + 1 THEN 1 ELSE InR(K, 10 + i, 1, MaxI(1, rk[i])))]
    [] style = 5 -> [k |-> "num", v |-> InR(K, 2, 1, 6)]
    [] style = 6 -> [k |-> "num", v |-> Among(K, 2, <<0, -1, -7>>)]
    [] style = 7 -> [k |-> "vec", v |-> Const(d + Among(K, 2, <<0, 2, -1>>), 2)]
    [] style = 8 -> [k |-> "vec", v |-> [Const(d + 1, 2) EXCEPT ![InR(K, 3, 1, d + 1)] = 0]]
    [] style = 10 -> [k |-> "num", v |-> 10]       \* the default of the conversions
    [] OTHER -> [k |-> "num", v |-> 20]
GCapStyle(K, j) == Among(K, j, <<0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10>>)
\* epsilon: 0 not given, -1 negative, 2 zero, 3 so small that it changes nothing
GEps(K, j, style) == IF style \in 9..10 /\ Chance(K, j, 1, 2) THEN Among(K, j + 2, <<-1, 2>>)
                     ELSE IF Chance(K, j, 1, 8) THEN 3 ELSE 0
GRound(K, o, x, i, style) ==
  LET cap == GCap(Sub(K, 3), ND(x), x.rk, style)
  IN IF cap.k = "vec" /\ Len(cap.v) = 0 THEN Skip
     ELSE [op |-> "round", o |-> o, a |-> <<i>>, cap |-> cap, f |-> Pick(K, 4, 3), np |-> Chance(K, 6, 1, 10),
           eps |-> GEps(K, 5, style)]

\* shapes whose unfolding ranks can be interesting
GFatModes(K, d) == LET m == Tab(d, LAMBDA k : IF d <= 2 THEN InR(K, k, 2, IF Chance(K, 99, 1, 12) THEN 11 ELSE 6) ELSE IF d = 3 THEN InR(K, k, 1, 5)
                                              ELSE IF d = 4 THEN InR(K, k, 1, 3) ELSE InR(K, k, 1, 2))
                   IN m
GNumShape(K) ==
  LET mat == Chance(K, 1, 2, 5)
      d == Among(K, 2, IF mat THEN <<1, 2, 2, 2, 3, 3, 3, 4, 4, 5>> ELSE <<1, 2, 3, 3, 3, 4, 4, 5, 6, 7>>)
  IN IF ~mat THEN [mat |-> FALSE, rows |-> GFatModes(Sub(K, 3), d), cols |-> Const(d, 1)]
     ELSE LET r == GModes(Sub(K, 3), d, IF d <= 2 THEN 9 ELSE 8)
          IN [mat |-> TRUE, rows |-> r,
              cols |-> IF Chance(K, 4, 1, 4) THEN Const(d, 1) ELSE IF Chance(K, 4, 1, 3) THEN r
                       ELSE GModes(Sub(K, 5), d, IF d <= 2 THEN 9 ELSE 8)]

GenC10(K, idx, s, R) ==
  LET Ks == Sub(K, s)
      sh == GNumShape(Sub(Ks, 1))
      d == Len(sh.rows)
      dt == Among(Ks, 2, <<"f64", "f64", "f32">>)
      src == Pick(Ks, 3, 4)
      rk == GRanks(Sub(Ks, 4), d, 3)
      nw == GNew(Sub(Ks, 5), 1, "tt", sh.mat, dt, 1, sh.rows, sh.cols, rk)
      sv == GSvdNew(Sub(Ks, 6), 1, "tt", sh.mat, dt, 1, sh.rows, sh.cols)
      from == IF src = 0 THEN Tab(ProdSeq(sh.rows) * ProdSeq(sh.cols), LAMBDA i : InR(Sub(Ks, 7), i, -4, 4))
              ELSE IF src = 3 THEN SemNew(sv.call).val[1]
              ELSE LET e == SemNew(nw) IN IF e.k = "obj" THEN e.val[1] ELSE <<>>
      style == GCapStyle(Ks, 8)
      cap == GCap(Sub(Ks, 9), d, IF src = 3 THEN Tab(d + 1, LAMBDA k : IF k = 1 \/ k = d + 1 THEN 1 ELSE Len(sv.parts[1]))
                                 ELSE rk, style)
      base == [op |-> "to_tt", o |-> s, a |-> <<>>, np |-> Chance(Sub(K, 77 + s), 6, 1, 10), mat |-> sh.mat, dt |-> dt, rows |-> sh.rows, cols |-> sh.cols,
               v |-> from, cap |-> cap, f |-> Pick(Ks, 10, 6), eps |-> GEps(Ks, 13, style),
               noshape |-> IF sh.mat /\ (\A k \in 1..d : sh.cols[k] = 1) /\ Chance(Ks, 12, 1, 2) THEN 2
                           ELSE IF sh.mat /\ (\A k \in 1..d : sh.rows[k] = 1) /\ Chance(Ks, 12, 1, 2) THEN 1 ELSE 0]
  IN IF s > 5 THEN Stop
     ELSE IF from = <<>> \/ AbsMax(from) > 400 \/ (cap.k = "vec" /\ Len(cap.v) = 0) THEN Skip
     ELSE IF src = 3 THEN base @@ [parts |-> sv.parts] ELSE base

GenC11(K, idx, s, R) ==
  LET big == Chance(K, 9, 1, 25)          \* large ranks
      sh == IF big THEN [mat |-> FALSE, rows |-> Tab(2, LAMBDA k : InR(K, 30 + k, 7, 11)), cols |-> Const(2, 1)] ELSE GNumShape(Sub(K, 1))
      d == Len(sh.rows)
      dt == Among(K, 2, <<"f64", "f64", "f32">>)
      kind == GKind(K, 3)
      bs == IF kind = "batch" THEN Among(K, 4, <<1, 2, 2, 2, 3, 3, 4, 7>>) ELSE 1
      svd == ~big /\ Chance(K, 5, 1, 3)
      sv == GSvdNew(Sub(K, 6), 1, kind, sh.mat, dt, bs, sh.rows, sh.cols)
      rk == IF big THEN <<1, InR(K, 33, 7, 12), 1>> ELSE GRanks(Sub(K, 7), d, IF d <= 3 THEN 4 ELSE 3)
      nw == GNew(Sub(K, 8), 1, kind, sh.mat, dt, bs, sh.rows, sh.cols, rk)
      Ks == Sub(K, 40 + s)
      wp(c, i) == IF svd /\ i = 1 /\ c.op = "round" THEN c @@ [parts |-> sv.parts] ELSE c
  IN CASE s = 1 -> IF svd THEN sv.call ELSE nw
       [] s = 2 -> wp(GRound(Ks, 2, R[1], 1, IF big THEN 0 ELSE GCapStyle(Ks, 1)), 1)
       [] s = 3 -> wp(GRound(Ks, 3, R[1], 1, Among(Ks, 1, <<3, 4, 4, 5>>)), 1)
       [] s = 4 -> Call2("add", 4, 1, 1) @@ [form |-> "fn"]
       [] s = 5 -> IF Ok(R, 4) THEN GRound(Ks, 5, [R[4] EXCEPT !.rk = R[1].rk], 4, Among(Ks, 1, <<0, 1, 2>>)) ELSE Skip
       [] s = 6 -> IF Ok(R, 5) THEN Call2("sub", 6, 5, 1) ELSE Skip
       [] s = 7 -> IF Ok(R, 6) THEN GRound(Ks, 7, R[6], 6, 0) ELSE Skip
       [] s = 8 -> GRound(Ks, 8, R[1], 1, GCapStyle(Ks, 1))
       [] OTHER -> Stop

GenC12(K, idx, s, R) ==
  LET sh == GNumShape(Sub(K, 1))
      d == Len(sh.rows)
      dt == Among(K, 2, <<"f64", "f64", "f32">>)
      kind == GKind(K, 3)
      bs == IF kind = "batch" THEN Among(K, 4, <<1, 2, 2, 2, 3, 3, 4, 7>>) ELSE 1
      rk == GRanks(Sub(K, 7), d, IF d <= 3 THEN 5 ELSE 3)
      nw == GNew(Sub(K, 8), 1, kind, sh.mat, dt, bs, sh.rows, sh.cols, rk)
      Ks == Sub(K, 40 + s)
      orth(o, i, l2r) == [op |-> "orth", o |-> o, a |-> <<i>>, l2r |-> l2r, f |-> Pick(Ks, 9, 2)]
  IN CASE s = 1 -> nw
       [] s = 2 -> orth(2, 1, TRUE)
       [] s = 3 -> orth(3, 1, FALSE)
       [] s = 4 -> Call1("renorm", 4, 1)
       [] s = 5 -> orth(5, IF Ok(R, 2) THEN 2 ELSE 1, kind = "batch" \/ Chance(Ks, 1, 1, 2))
       [] s = 6 -> IF Ok(R, 2) THEN Call1("renorm", 6, 2) ELSE Skip
       [] s = 7 -> GScalar(Ks, 7, 1)
       [] s = 8 -> IF Ok(R, 7) THEN Call1("renorm", 8, 7) ELSE Skip
       [] s = 9 -> Call2("add", 9, 1, 1) @@ [form |-> "fn"]
       [] s = 10 -> IF Ok(R, 9) THEN orth(10, 9, TRUE) ELSE Skip
       [] s = 11 -> IF Ok(R, 9) THEN Call1("renorm", 11, 9) ELSE Skip
       [] OTHER -> Stop
=============================================================================
