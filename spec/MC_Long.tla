------------------------------ MODULE MC_Long -------------------------------
(***************************************************************************)
(* The specification of long objects is that of T3F: on objects small      *)
(* enough for a dense value, every call has the same outcome, element by   *)
(* element, whether specified on trains or on dense values; the ranks      *)
(* modulo primes are the ranks of the unfoldings; an object that differs   *)
(* from a minimal one in one core is its own projection.                   *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Keys
VARIABLES key, form
vars == <<key, form>>

Forms == << [kind |-> "tt", mat |-> FALSE, bs |-> 1, rows |-> <<2, 3, 2>>, cols |-> <<1, 1, 1>>, rk |-> <<1, 2, 2, 1>>],
            [kind |-> "tt", mat |-> FALSE, bs |-> 1, rows |-> <<3, 1, 2, 2>>, cols |-> <<1, 1, 1, 1>>, rk |-> <<1, 3, 2, 2, 1>>],
            [kind |-> "batch", mat |-> FALSE, bs |-> 2, rows |-> <<3, 4>>, cols |-> <<1, 1>>, rk |-> <<1, 2, 1>>],
            [kind |-> "tt", mat |-> TRUE, bs |-> 1, rows |-> <<2, 2>>, cols |-> <<2, 2>>, rk |-> <<1, 2, 1>>],
            [kind |-> "batch", mat |-> TRUE, bs |-> 2, rows |-> <<2, 2>>, cols |-> <<3, 1>>, rk |-> <<1, 2, 1>>],
            [kind |-> "tt", mat |-> TRUE, bs |-> 1, rows |-> <<2, 3>>, cols |-> <<2, 3>>, rk |-> <<1, 1, 1>>],
            [kind |-> "tt", mat |-> TRUE, bs |-> 1, rows |-> <<2, 3>>, cols |-> <<1, 1>>, rk |-> <<1, 2, 1>>] >>
Fm == Forms[form]
nd == Len(Fm.rows)
Unimod(n, z) == Tab(n * n, LAMBDA q : LET i == (q - 1) \div n
                                          l == (q - 1) % n
                                      IN IF i = l THEN (IF Pick(Key(key, z, 77), i, 2) = 0 THEN 1 ELSE -1) ELSE IF l < i THEN Pick(Key(key, z, 78), q, 3) - 1 ELSE 0)
Ents(g, j) == IF form = 6 /\ j = 3 /\ key % 2 = 0 THEN <<Tab(Len(g.rows), LAMBDA k : Unimod(g.rows[k], k))>> ELSE Tab(g.bs, LAMBDA b : Tab(Len(g.rows), LAMBDA k :
               Tab(g.rk[k] * g.rows[k] * g.cols[k] * g.rk[k + 1], LAMBDA q : InR(Key(key, j, 10 * b + k), q, -1, IF key % 3 = 0 THEN 1 ELSE 2))))
NewOf(o, g, e) == [op |-> "new", o |-> o, a |-> <<>>, dt |-> "f64", e |-> e] @@ g
\* registers: 1 and 2 of the form, 3 a single one, 4 with one core replaced,
\* 5 the transposed form, 6 of another form, 7 with two cores replaced
One == [Fm EXCEPT !.kind = "tt", !.bs = 1]
Calls0 ==
  LET kk == 1 + (key % nd)
      e3 == Ents(One, 3)
  IN << NewOf(1, Fm, Ents(Fm, 1)), NewOf(2, [Fm EXCEPT !.rk = Const(nd + 1, 1)], Ents([Fm EXCEPT !.rk = Const(nd + 1, 1)], 2)), NewOf(3, One, e3),
        NewOf(4, One, <<[e3[1] EXCEPT ![kk] = Ents(One, 4)[1][kk]]>>),
        NewOf(5, [One EXCEPT !.rows = Fm.cols, !.cols = Fm.rows], Ents(One, 5)),
        NewOf(6, [One EXCEPT !.rows = [@ EXCEPT ![1] = 5]], Ents([One EXCEPT !.rows = [@ EXCEPT ![1] = 5]], 6)),
        NewOf(7, One, <<[e3[1] EXCEPT ![1] = Ents(One, 4)[1][1], ![nd] = Ents(One, 4)[1][nd]]>>) >>
AllPos(rows, cols) ==
  LET M == ProdSeq(cols)
  IN Tab(ProdSeq(rows) * M, LAMBDA q : [i |-> Digits((q - 1) \div M, rows), j |-> Digits((q - 1) % M, cols)])
\* the registers, specified densely and by trains
Dense0 == FoldLeft(LAMBDA R, c : Put(R, c.o, Guess(SemNew(c), KnownCores(c))), [i \in {0} |-> Nil], Calls0)
Long0 == FoldLeft(LAMBDA R, c : Put(R, c.o, LET e == LongExpect(c @@ [pr |-> <<>>], R) IN WithEx(Guess(e, <<>>), e)), [i \in {0} |-> Nil], Calls0)

C1(op, i) == [op |-> op, o |-> 9, a |-> <<i>>]
C2(op, i, j) == [op |-> op, o |-> 9, a |-> <<i, j>>]
Item(j, n) == IF Pick(Key(key, 11, j), 1, 2) = 0 THEN [k |-> "i", v |-> Pick(Key(key, 11, j), 2, n)]
              ELSE [k |-> "s", lo |-> Among(Key(key, 11, j), 3, <<None, 0, 1, -1>>), hi |-> Among(Key(key, 11, j), 4, <<None, n, -1>>),
                    st |-> Among(Key(key, 11, j), 5, <<None, 2, -1>>)]
Items == (IF Fm.kind = "batch" THEN <<Item(0, Fm.bs)>> ELSE <<>>) \o Tab(nd, LAMBDA k : Item(k, Fm.rows[k]))
\* (sometimes out of range)
GIx == Flat(Tab(3, LAMBDA q : (IF Fm.kind = "batch" THEN <<Pick(Key(key, 12, q), 9, Fm.bs)>> ELSE <<>>)
                              \o Tab(nd, LAMBDA k : Pick(Key(key, 12, q), k, Fm.rows[k] + IF key % 5 = 0 THEN 1 ELSE 0))))
Cap == [k |-> "num", v |-> 2]
Tests ==
  {C2(op, i, j) : op \in {"add", "sub", "mul", "inner"}, i \in {1, 3}, j \in {2, 4, 6}}
  \cup {C2("matmul", i, j) : i \in {1, 3, 5}, j \in {1, 5, 6}}
  \cup {C1(op, i) : op \in {"neg", "transpose", "expand", "squeeze", "renorm", "norm2"}, i \in {1, 3}}
  \cup {C1("scale", 1) @@ [num |-> -3, den |-> 1], C2("concat", 1, 1), C2("concat", 1, 2), C2("pair", 1, 2), C1("gram", 1)}
  \cup {C1("scale_batch", 1) @@ [w |-> Tab(Fm.bs, LAMBDA b : b - 3), wden |-> 1]}
  \cup {C1("slice", 1) @@ [ix |-> Items], C1("slice", 3) @@ [ix |-> Items]}
  \cup {C1("gather", 1) @@ [ish |-> <<3, Len(GIx) \div 3>>, ix |-> GIx], C1("gather", 3) @@ [ish |-> <<3, Len(GIx) \div 3>>, ix |-> GIx]}
  \cup {C1("orth", i) @@ [l2r |-> l] : i \in {1, 3}, l \in BOOLEAN}
  \cup {C1("round", i) @@ [cap |-> Cap, eps |-> 0] : i \in {1, 3}}
  \cup {[op |-> "bilin", o |-> 9, a |-> <<i, 3, j>>] : i \in {3, 5}, j \in {3, 4}}
  \cup {[op |-> "pair_mat", o |-> 9, a |-> <<1, 2, 3>>], C1("kchol", 3)}
\* the trains say what the dense values say (or nothing)
Agree(c, R, Q) ==
  \E e \in {Expect0(c, R)} :
  \E g \in {LongExpect(c @@ [pr |-> IF Has(e, "rows") THEN AllPos(e.rows, e.cols) ELSE <<>>], Q)} :
    CASE g.k \in {"free", "big"} -> TRUE
      [] g.k = "err" -> e.k \in {"err", "free"} /\ (e.k = "err" => e.err = g.err \/ "any" \in {e.err, g.err})
      [] g.k = "num" -> e.k = "num" /\ e.shp = g.shp /\ e.val = g.val /\ g.dt = e.dt
      [] g.k = "obj" -> /\ e.k = "obj" /\ e.kind = g.kind /\ e.mat = g.mat /\ e.bs = g.bs /\ e.rows = g.rows /\ e.cols = g.cols
                        /\ e.val = g.val /\ e.rkmax = g.rkmax
                        /\ \A b \in 1..g.bs : IsTrain(g.tr[b]) /\ DenseOf(g.tr[b]) = e.val[b] /\ AbsMax(e.val[b]) <= g.mag
Refines == \E R \in {Dense0} : \E Q \in {Long0} : \A c \in Tests : Agree(c, R, Q)
\* few calls are left open
Covered == \E Q \in {Long0} : Cardinality({c \in Tests : LongExpect(c @@ [pr |-> <<>>], Q).k \notin {"free", "big"}}) >= 20
\* ranks of unfoldings; sums of an object with itself are deficient
RanksAre ==
  \E Q \in {Long0} : \A i \in {1, 3} : \A b \in 1..Q[i].bs :
    \E t \in {Q[i].tr[b]} : \E u \in {LAddTrain(t, t)} : \E v \in {DenseOf(t)} :
      \A k \in 2..nd : \E r \in {MaxI(1, UnfRank(v, Fm.rows, Fm.cols, k - 1))} : LRanks(t)[k] = r /\ LRanks(u)[k] = r
\* inner products with a sparse tensor
SparseIs ==
  LET M == ProdSeq(Fm.cols)
      ix == Tab(4, LAMBDA q : Pick(Key(key, 13, q), 1, ProdSeq(Fm.rows) * M))
      w == <<1, -2, 3, 1>>
      at == Map(ix, LAMBDA z : [i |-> Digits(z \div M, Fm.rows), j |-> Digits(z % M, Fm.cols)])
  IN SemInnerSparse(Dense0[3], ix, w, TRUE).val = LongExpect(C1("l_sparse", 3) @@ [at |-> at, w |-> w, pr |-> <<>>], Long0).val
\* z is its own projection on the tangent space at x
SelfProjected ==
  \E R \in {Dense0} : \E Q \in {Long0} : \A i \in {4, 7} : \E g \in {LongExpect(C2("project", i, 3) @@ [pr |-> AllPos(Fm.rows, Fm.cols)], Q)} :
    g.k = "obj" =>
      \E e \in {SemProject(R[i], R[3], 3)} :
        e.k = "tan" => ProjClauses(e.P, e.rows, e.cols, e.z[1], Map(g.val[1], LAMBDA v : 4096 * v), 4096, "f64", e.mg) = <<>>
\* Kronecker products: the determinant of N x N is the product of the powers
KronIs ==
  form = 6 =>
    LET g == LongExpect(C1("kslog", 3) @@ [pr |-> <<>>], Long0)
        e == SemKDet(Dense0[3])
    IN g.k = "num" => /\ Sgn(e.val[1]) = g.sg[1]
                      /\ Abs(e.val[1]) = Pow(2, (g.val[1] * 6) \div g.den)
InvIs ==
  form = 6 =>
    \E g \in {LongExpect(C1("kinv", 3) @@ [pr |-> AllPos(Fm.rows, Fm.cols)], Long0)} :
      g.k = "obj" => DMatMul(DenseOf(Long0[3].tr[1]), g.val[1], 6, 6, 6) = Tab(36, LAMBDA q : IF (q - 1) \div 6 = (q - 1) % 6 THEN 1 ELSE 0)

Init == key \in 1..Keys /\ form \in DOMAIN Forms
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
