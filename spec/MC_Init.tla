------------------------------ MODULE MC_Init -------------------------------
(***************************************************************************)
(* Initializers: rank-one trains of constant cores denote the promised     *)
(* matrices; and the law behind the scaling of random cores: the entries   *)
(* of a train whose cores have independent entries +1 / -1 have mean zero  *)
(* and mean square r_1 r_2 .. r_{d-1} (all sign patterns are enumerated),  *)
(* so cores of variance v^(1/d) / (r_1 .. r_{d-1})^(1/d) give variance v.  *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANTS Mode, Deep
VARIABLES m
Init ==
  CASE Mode = "const" ->
         \/ \E n \in [1..2 -> 1..3] : \E c \in [1..2 -> 1..2] : m = [n |-> Tab(2, LAMBDA i : n[i]), c |-> Tab(2, LAMBDA i : c[i])]
         \/ \E n \in [1..3 -> 1..2] : \E c \in [1..3 -> 1..2] : m = [n |-> Tab(3, LAMBDA i : n[i]), c |-> Tab(3, LAMBDA i : c[i])]
    [] Mode = "moments" ->
         m \in {<<1, 1>>, <<1, 2, 1>>, <<1, 3, 1>>, <<1, 2, 2, 1>>, <<1, 1, 2, 1>>} \cup (IF Deep THEN {<<1, 2, 3, 1>>} ELSE {})
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
C1(n, c, f(_, _)) == MkCore(1, n, c, 1, LAMBDA a, i, j, b : f(i, j))
ConstIs == Mode = "const" =>
  LET d == Len(m.n)
      call(f) == [f |-> f, rows |-> m.n, cols |-> m.c, rnone |-> FALSE, cnone |-> FALSE, frac |-> "", nest |-> FALSE,
                  rkk |-> "default", rkv |-> <<>>, bsk |-> "default", bsv |-> 1, mean |-> 0, dt |-> "f64"]
      ones == Tab(d, LAMBDA k : C1(m.n[k], m.c[k], LAMBDA i, j : 1))
      zeros == Tab(d, LAMBDA k : C1(m.n[k], m.c[k], LAMBDA i, j : 0))
      tones == Tab(d, LAMBDA k : C1(m.n[k], 1, LAMBDA i, j : 1))
      id == Tab(d, LAMBDA k : C1(m.n[k], m.n[k], LAMBDA i, j : IF i = j THEN 1 ELSE 0))
      is(f, cs) == LET e == SemInit(call(f)) IN /\ e.k = "obj" /\ e.val = <<DenseOf(cs)>> /\ e.rows = RowsOf(cs)
                                                /\ e.cols = ColsOf(cs) /\ e.rkmax = RanksOf(cs)
  IN /\ is("matrix_ones", ones) /\ is("matrix_zeros", zeros) /\ is("tensor_ones", tones) /\ is("eye", id)
     /\ SemInit([call("matrix_ones") EXCEPT !.rows = [m.n EXCEPT ![1] = 0]]).k = "err"
     /\ SemInit([call("matrix_ones") EXCEPT !.cols = Append(m.c, 1)]).k = "err"
\* all sign patterns of the cores of one entry: sum of the entries and of their squares
Signs(n) == {Tab(n, LAMBDA i : 2 * s[i] - 1) : s \in [1..n -> 0..1]}
Sizes == Tab(Len(m) - 1, LAMBDA k : m[k] * m[k + 1])
Off(k) == SumSeq(SubSeq(Sizes, 1, k - 1))
Entry(s) == DenseOf(Tab(Len(m) - 1, LAMBDA k : Core(m[k], 1, 1, m[k + 1], SubSeq(s, Off(k) + 1, Off(k) + Sizes[k]))))[1]
MomentsAre == Mode = "moments" =>
  LET S == Signs(SumSeq(Sizes))
  IN /\ FoldSet(LAMBDA s, acc : acc + Entry(s), 0, S) = 0
     /\ FoldSet(LAMBDA s, acc : acc + Entry(s) * Entry(s), 0, S) = Cardinality(S) * ProdSeq(m)
=============================================================================
