------------------------------ MODULE MC_Dense ------------------------------
(***************************************************************************)
(* Exact linear algebra used by the specification, on all small matrices:  *)
(* rank = order of the largest non-zero minor; determinant and inverse of  *)
(* Kronecker products; the integer Cholesky factor; row and null spaces;   *)
(* the order of interleaved indices.                                       *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANTS Mode, Deep
VARIABLES m
vars == <<m>>
Ent == -1..1
Init ==
  CASE Mode = "rank" ->
         \/ \E a \in [1..4 -> -2..2] : m = [r |-> 2, c |-> 2, a |-> Tab(4, LAMBDA i : a[i])]
         \/ \E a \in [1..6 -> Ent] : m = [r |-> 2, c |-> 3, a |-> Tab(6, LAMBDA i : a[i])]
         \/ \E a \in [1..9 -> 0..1] : m = [r |-> 3, c |-> 3, a |-> Tab(9, LAMBDA i : a[i])]
         \/ Deep /\ \E a \in [1..9 -> Ent] : m = [r |-> 3, c |-> 3, a |-> Tab(9, LAMBDA i : a[i])]
    [] Mode = "kron" ->
         \E a \in [1..4 -> (IF Deep THEN Ent ELSE 0..1)] : \E b \in [1..4 -> Ent] :
           m = [x |-> Tab(4, LAMBDA i : a[i]), y |-> Tab(4, LAMBDA i : b[i])]
    [] Mode = "chol" ->
         \E d \in [1..3 -> 1..2] : \E o \in [1..3 -> (IF Deep THEN -2..2 ELSE Ent)] :
           m = <<d[1], 0, 0, o[1], d[2], 0, o[2], o[3], d[3]>>
    [] Mode = "weave" ->
         \E n \in [1..3 -> 1..2] : \E c \in [1..3 -> 1..2] : m = [n |-> Tab(3, LAMBDA i : n[i]), c |-> Tab(3, LAMBDA i : c[i])]
Next == UNCHANGED m
Spec == Init /\ [][Next]_vars

\* some minor of order k is not zero
Sets(k, n) == {s \in SUBSET (1..n) : Cardinality(s) = k}
Ord(s) == SetToSortSeq(s, LAMBDA p, q : p < q)
SubM(a, c, I, J) == Tab(Len(I) * Len(J), LAMBDA q : a[(I[(q - 1) \div Len(J) + 1] - 1) * c + J[((q - 1) % Len(J)) + 1]])
HasMinor(k) == \E s \in Sets(k, m.r) : \E t \in Sets(k, m.c) : Det(SubM(m.a, m.c, Ord(s), Ord(t)), k) # 0
RankIs == Mode = "rank" =>
  LET r == Rank(m.a, m.r, m.c)
  IN /\ (r = 0 \/ HasMinor(r))
     /\ (r = MinI(m.r, m.c) \/ ~HasMinor(r + 1))
SpacesAre == Mode = "rank" =>
  LET s == RowSpaces(Tab(m.r, LAMBDA i : SubSeq(m.a, (i - 1) * m.c + 1, i * m.c)), m.r, m.c)
      row(i) == SubSeq(m.a, (i - 1) * m.c + 1, i * m.c)
  IN /\ s.ok /\ s.r = Rank(m.a, m.r, m.c) /\ Len(s.basis) = s.r /\ Len(s.nul) = m.c - s.r
     /\ \A i \in 1..m.r : \A j \in DOMAIN s.nul : DDot(row(i), s.nul[j]) = 0
     /\ \A i \in DOMAIN s.basis : \A j \in DOMAIN s.nul : DDot(s.basis[i], s.nul[j]) = 0
     /\ s.nul # <<>> => Rank(Flat(s.nul), Len(s.nul), m.c) = Len(s.nul)
K(a, b) == Core(1, 2, 2, 1, a)
Kron(a, b) == DenseOf(<<Core(1, 2, 2, 1, a), Core(1, 2, 2, 1, b)>>)
KObj == [kind |-> "tt", mat |-> TRUE, dt |-> "f64", bs |-> 1, rows |-> <<2, 2>>, cols |-> <<2, 2>>, rk |-> <<1, 1, 1>>,
         val |-> <<Kron(m.x, m.y)>>, den |-> 1, mag |-> 4,
         cores |-> <<<<Core(1, 2, 2, 1, m.x), Core(1, 2, 2, 1, m.y)>>>>]
DetIs == Mode = "kron" => SemKDet(KObj).val = <<Det(KObj.val[1], 4)>>
InvIs == Mode = "kron" =>
  LET e == SemKInv(KObj)
  IN e.k = "ratio" => DMatMul(KObj.val[1], e.P[1], 4, 4, 4) = DScale(e.Q[1], DIdentity(4))
Singular == Mode = "kron" => ((SemKInv(KObj).k = "ratio") <=> (Det(KObj.val[1], 4) # 0))
CholIs == Mode = "chol" => CholInt(DMatMul(m, DTrans(m, 3, 3), 3, 3, 3), 3) = m
NoChol == Mode = "chol" =>       \* indefinite or asymmetric: no factor
  LET s == DMatMul(m, DTrans(m, 3, 3), 3, 3, 3)
  IN /\ CholInt([s EXCEPT ![1] = -s[1]], 3) = <<>>
     /\ CholInt([s EXCEPT ![2] = s[2] + 1], 3) = <<>>
WeaveIs == Mode = "weave" =>
  LET N == ProdSeq(m.n)
      M == ProdSeq(m.c)
      v == Tab(N * M, LAMBDA q : q)
      w == Weave(v, m.n, m.c)
      p == Modes(m.n, m.c)
  IN /\ Unweave(w, m.n, m.c) = v
     /\ \A q \in 1..(N * M) :
          LET I == Digits((q - 1) \div M, m.n)
              J == Digits((q - 1) % M, m.c)
          IN w[Undigits(Tab(3, LAMBDA k : I[k] * m.c[k] + J[k]), p) + 1] = v[q]
=============================================================================
