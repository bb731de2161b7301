------------------------------- MODULE Dense --------------------------------
(***************************************************************************)
(* Dense integer matrices, flattened row-major into sequences.  A tensor   *)
(* of shape n1 x ... x nd is the N x 1 matrix of its row-major elements.   *)
(***************************************************************************)
EXTENDS Base

DAdd(a, b) == Tab(Len(a), LAMBDA i : a[i] + b[i])
DSub(a, b) == Tab(Len(a), LAMBDA i : a[i] - b[i])
DHad(a, b) == Tab(Len(a), LAMBDA i : a[i] * b[i])
DScale(c, a) == Tab(Len(a), LAMBDA i : c * a[i])
DDot(a, b) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * b[i], 0, a)
\* (n x k) * (k x m)
DMatMul(a, b, n, k, m) ==
  Tab(n * m, LAMBDA q :
    LET i == (q - 1) \div m
        j == (q - 1) % m
    IN Sum(k, LAMBDA t : a[i * k + t] * b[(t - 1) * m + j + 1]))
DTrans(a, n, m) == Tab(n * m, LAMBDA q : LET j == (q - 1) \div n
                                             i == (q - 1) % n
                                         IN a[i * m + j + 1])
DIdentity(n) == Tab(n * n, LAMBDA q : IF (q - 1) \div n = (q - 1) % n THEN 1 ELSE 0)
Zeros(n) == Const(n, 0)
\* sum of a non-empty sequence of equally long vectors
DSum(vs) == FoldLeft(LAMBDA acc, v : DAdd(acc, v), vs[1], Tail(vs))

(***************************************************************************)
(* Rank over the integers, computed modulo two primes (the rank modulo a   *)
(* prime never exceeds the true rank).                                     *)
(***************************************************************************)
PowMod(a, e, p) ==
  LET f[i \in Nat] == IF i = 0 THEN 1
                      ELSE LET h == f[i \div 2]
                               hh == (h * h) % p
                           IN IF i % 2 = 0 THEN hh ELSE (hh * a) % p
  IN f[e]
InvMod(a, p) == PowMod(a, p - 2, p)
RankMod(a, n, m, p) ==
  LET start == [r |-> 0, e |-> Tab(n * m, LAMBDA q : a[q] % p)]
      step(st, col) ==
        LET cand == {i \in st.r..(n - 1) : st.e[i * m + col] # 0}
        IN IF st.r = n \/ cand = {} THEN st
           ELSE LET piv == CHOOSE i \in cand : \A j \in cand : i <= j
                    inv == InvMod(st.e[piv * m + col], p)
                    row == Tab(m, LAMBDA j : (st.e[piv * m + j] * inv) % p)
                    sw == Tab(n * m, LAMBDA q :
                              LET i == (q - 1) \div m
                                  j == ((q - 1) % m) + 1
                              IN IF i = st.r THEN row[j]
                                 ELSE IF i = piv THEN st.e[st.r * m + j]
                                 ELSE st.e[q])
                IN [r |-> st.r + 1,
                    e |-> Tab(n * m, LAMBDA q :
                              LET i == (q - 1) \div m
                                  j == ((q - 1) % m) + 1
                              IN IF i <= st.r THEN sw[q]
                                 ELSE (sw[q] - ((sw[i * m + col] * row[j]) % p)) % p)]
  IN FoldLeft(step, start, Tab(m, LAMBDA i : i)).r
Rank(a, n, m) == MaxI(RankMod(a, n, m, P1), RankMod(a, n, m, P2))

\* Determinant of a small integer matrix (cofactor expansion)
RECURSIVE Det(_, _)
Det(a, n) ==
  IF n = 0 THEN 1
  ELSE IF n = 1 THEN a[1]
  ELSE Sum(n, LAMBDA j :
         IF a[j] = 0 THEN 0
         ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * a[j]
              * Det(Tab((n - 1) * (n - 1), LAMBDA q :
                      LET i == (q - 1) \div (n - 1) + 1
                          c == ((q - 1) % (n - 1)) + 1
                      IN a[i * n + (IF c < j THEN c ELSE c + 1)]), n - 1))
=============================================================================
