----------------------------- MODULE MC_Tangent -----------------------------
(***************************************************************************)
(* Tangent vectors.                                                        *)
(* "block": the block cores built from left cores L, right cores R and     *)
(*   deltas D contract to Sum_k L..L D_k R..R, of ranks at most twice those *)
(*   of the point; linear in (L_k, R_k, D_k) at every position, so unit    *)
(*   cores suffice.  Adding the deltas of two tangent vectors adds them.   *)
(* "space": on concrete points, the integer bases of the unfolding spaces  *)
(*   are orthogonal complements, every L..L D_k R..R passes the membership *)
(*   clause, and only multiples of zero pass both clauses: the two clauses *)
(*   determine the projection.                                             *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANTS Deep, N
VARIABLES mode, idx, L, R, D, k, out
vars == <<mode, idx, L, R, D, k, out>>

UnitCore(r, m, s, q) == Core(r, m, 1, s, Tab(r * m * s, LAMBDA i : IF i = q THEN 1 ELSE 0))
CoreSet(r, m, s) == {UnitCore(r, m, s, q) : q \in 1..(r * m * s)}
Zero(c) == [c EXCEPT !.e = Zeros(Len(c.e))]
\* at every position one of L, R, D is a unit core and the others are zero
Forms == {[n |-> <<2, 2>>, rk |-> <<1, 2, 1>>], [n |-> <<2, 2, 1>>, rk |-> <<1, 2, 1, 1>>]}
         \cup (IF Deep THEN {[n |-> <<2, 1, 2>>, rk |-> <<1, 2, 2, 1>>]} ELSE {})
Train(f) == IF Len(f.n) = 2 THEN {<<a, b>> : a \in CoreSet(1, f.n[1], f.rk[2]), b \in CoreSet(f.rk[2], f.n[2], 1)}
            ELSE {<<a, b, c>> : a \in CoreSet(1, f.n[1], f.rk[2]), b \in CoreSet(f.rk[2], f.n[2], f.rk[3]),
                                c \in CoreSet(f.rk[3], f.n[3], 1)}
Point(i) ==      \* concrete cores
  LET K == Key(17, 13, i)
      d == 2 + (i % 2)
      n == Tab(d, LAMBDA t : InR(K, t, 2, 3))
      rk == Tab(d + 1, LAMBDA t : IF t = 1 \/ t = d + 1 THEN 1 ELSE InR(K, 10 + t, 1, 2))
  IN Tab(d, LAMBDA t : Core(rk[t], n[t], 1, rk[t + 1], Tab(rk[t] * n[t] * rk[t + 1], LAMBDA q : InR(K, 100 * t + q, -2, 2))))
Init ==
  \/ /\ mode = "block" /\ idx = 0 /\ k = 0 /\ out = <<>>
     /\ \E f \in Forms : \E t \in Train(f) : \E w \in [1..Len(t) -> 1..3] :
          /\ L = Tab(Len(t), LAMBDA i : IF w[i] = 1 THEN t[i] ELSE Zero(t[i]))
          /\ R = Tab(Len(t), LAMBDA i : IF w[i] = 2 THEN t[i] ELSE Zero(t[i]))
          /\ D = Tab(Len(t), LAMBDA i : IF w[i] = 3 THEN t[i] ELSE Zero(t[i]))
  \/ /\ mode = "space" /\ idx \in 1..N /\ L = Point(idx) /\ R = <<>> /\ D = <<>> /\ k = 0 /\ out = <<>>
Next ==
  /\ mode = "block" /\ k < Len(D)
  /\ k' = k + 1
  /\ out' = Append(out, TanCore(L[k + 1], R[k + 1], D[k + 1], k = 0, k + 1 = Len(D)))
  /\ UNCHANGED <<mode, idx, L, R, D>>
Spec == Init /\ [][Next]_vars

Pre(cs, j) == Contract(SubSeq(cs, 1, j))
\* the first k block cores contract to [ Sum_{i<=k} L..D_i..R | L_1..L_k ]
LoopInv ==
  (mode = "block" /\ k >= 1 /\ k < Len(D)) =>
    LET o == Contract(out)
        l == Pre(L, k)
        s == DSum(Tab(k, LAMBDA i : Contract(Tab(k, LAMBDA t : IF t < i THEN L[t] ELSE IF t = i THEN D[t] ELSE R[t])).e))
        r == D[k].s
    IN /\ o.s = 2 * r
       /\ \A i \in 0..(o.n - 1) : \A b \in 0..(r - 1) :
            /\ El(o, 0, i, 0, b) = s[i * r + b + 1]
            /\ El(o, 0, i, 0, r + b) = El(l, 0, i, 0, b)
BlockDone == (mode = "block" /\ k = Len(D)) =>
    /\ IsTrain(out) /\ DenseOf(out) = TanSum(L, R, D)
    /\ \A i \in 2..Len(D) : RanksOf(out)[i] = 2 * RanksOf(D)[i]

Obj == [kind |-> "tt", mat |-> FALSE, dt |-> "f64", bs |-> 1, rows |-> RowsOf(L), cols |-> ColsOf(L),
        rk |-> RanksOf(L), val |-> <<DenseOf(L)>>, den |-> 1, mag |-> MagOf(L), cores |-> <<>>]
P == PointOf(Obj)
Ortho(U, V) == \A i \in DOMAIN U : \A j \in DOMAIN V : DDot(U[i], V[j]) = 0
Spaces ==
  (mode = "space" /\ P.ok) =>
    \A i \in 1..(P.d - 1) :
      /\ Ortho(P.fr[i].row, P.fr[i].rown) /\ Ortho(P.fr[i].col, P.fr[i].coln)
      /\ Len(P.fr[i].row) = P.fr[i].r /\ Len(P.fr[i].col) = P.fr[i].r
      /\ Len(P.fr[i].row) + Len(P.fr[i].rown) = SizeFrom(P.p, i)
      /\ Len(P.fr[i].col) + Len(P.fr[i].coln) = SizeTo(P.p, i)
      /\ P.fr[i].r = UnfRank(Obj.val[1], Obj.rows, Obj.cols, i)
\* any change of a single core is a tangent vector; the point is one too
Delta(j) == LET K == Key(19, 13, idx * 10 + j) IN [L[j] EXCEPT !.e = Tab(Len(L[j].e), LAMBDA q : InR(K, q, -2, 2))]
Members ==
  (mode = "space" /\ P.ok) =>
    /\ InTangent(P, Obj.val[1], 0)
    /\ \A j \in DOMAIN L : InTangent(P, DenseOf([L EXCEPT ![j] = Delta(j)]), 0)
\* vectors orthogonal to the tangent space are orthogonal to these, and only
\* zero passes both clauses (the clauses have a slack of one unit)
W == LET K == Key(23, 13, idx) IN Tab(Len(Obj.val[1]), LAMBDA q : 4096 * InR(K, q, -3, 3))
Pairing ==
  (mode = "space" /\ P.ok) =>
    /\ OrthTangent(P, W, 0) => \A j \in DOMAIN L : DDot(Map(W, LAMBDA z : z \div 4096), DenseOf([L EXCEPT ![j] = Delta(j)])) = 0
    /\ (InTangent(P, W, 0) /\ OrthTangent(P, W, 0)) => AbsMax(W) = 0
=============================================================================
