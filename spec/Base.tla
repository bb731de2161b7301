-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Arithmetic, sequences and deterministic choice shared by all modules.   *)
(* TLC integers are 32 bit and overflow raises an error, hence the         *)
(* saturating operators.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* Sum_{i=1}^{n} f(i)
Sum(n, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, 1..n)
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA acc, x : acc * x, 1, s)
MaxSeq(s) == FoldLeft(LAMBDA acc, x : MaxI(acc, x), 0, s)
MinSeq(s) == FoldLeft(LAMBDA acc, x : MinI(acc, x), 2000000000, s)
AbsMax(s) == FoldLeft(LAMBDA acc, x : MaxI(acc, Abs(x)), 0, s)
AbsSum(s) == FoldLeft(LAMBDA acc, x : acc + Abs(x), 0, s)

\* An (eagerly evaluated) sequence of length n
Tab(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])
Const(n, x) == Tab(n, LAMBDA i : x)
Map(s, f(_)) == Tab(Len(s), LAMBDA i : f(s[i]))
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
Rng(s) == {s[i] : i \in DOMAIN s}
Has(rec, fld) == fld \in DOMAIN rec
Rev(s) == Tab(Len(s), LAMBDA i : s[Len(s) + 1 - i])

\* Saturating arithmetic on naturals
Lim == 4000000
SatAdd(a, b) == MinI(a + b, Lim)
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0
                ELSE IF a > Lim \div b THEN Lim ELSE a * b
SatPow(a, k) == FoldLeft(LAMBDA acc, x : SatMul(acc, a), 1, Const(k, 0))
Pow(a, k) == FoldLeft(LAMBDA acc, x : acc * a, 1, Const(k, 0))

\* Row-major mixed radix digits (0-based) of a 0-based number and back
Digits(q, radix) ==
  LET d == Len(radix)
      tail == Tab(d, LAMBDA k : ProdSeq(SubSeq(radix, k + 1, d)))
  IN Tab(d, LAMBDA k : (q \div tail[k]) % radix[k])
Undigits(ix, radix) ==
  FoldLeft(LAMBDA acc, k : acc * radix[k] + ix[k], 0, Tab(Len(radix), LAMBDA k : k))

(***************************************************************************)
(* Deterministic choice: a key is a pair of residues; Sub derives a new    *)
(* key, Pick a number in 0..n-1.                                           *)
(***************************************************************************)
P1 == 46337
P2 == 46327
Sub(K, j) ==
  LET a == (((K[1] * K[1]) % P1) + (j % 100000) * 7919 + K[2] * 13 + 17) % P1
      b == (((K[2] * K[2]) % P2) + a * 31 + (j % 100000) * 10007 + K[1] + 29) % P2
      c == (((a * a) % P1) + b * 5 + 3) % P1
  IN <<c, (((b * c) % P2) + a + 11) % P2>>
Key(seed, prop, idx) == Sub(Sub(Sub(<<seed % P1, (seed \div P1) % P2>>, prop), idx), idx \div 100000 + 7)
Pick(K, j, n) == LET s == Sub(K, j) IN (s[1] * 9973 + s[2] * 7) % n
Among(K, j, s) == s[Pick(K, j, Len(s)) + 1]           \* an element of a sequence
InR(K, j, lo, hi) == lo + Pick(K, j, hi - lo + 1)     \* an integer of lo..hi
Chance(K, j, num, den) == Pick(K, j, den) < num
=============================================================================
