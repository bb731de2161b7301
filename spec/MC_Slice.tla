------------------------------ MODULE MC_Slice ------------------------------
(***************************************************************************)
(* Indexing core by core: a slice restricts a core, an integer turns it    *)
(* into a matrix that is absorbed by the next kept core (the last ones by  *)
(* the kept core before).  Gathering an element multiplies row vectors.    *)
(* Linear in every core, so unit cores suffice (see MC_Sweep).  Also: the  *)
(* positions a Python slice selects, against their defining property.      *)
(***************************************************************************)
EXTENDS TTAlg
CONSTANT Deep
VARIABLES mode, n, x, items, k, out, rem
vars == <<mode, n, x, items, k, out, rem>>

UnitCore(r, m, s, q) == Core(r, m, 1, s, Tab(r * m * s, LAMBDA i : IF i = q THEN 1 ELSE 0))
CoreSet(r, m, s) == {UnitCore(r, m, s, q) : q \in 1..(r * m * s)}
Trains == {<<a, b>> : a \in CoreSet(1, 2, 2), b \in CoreSet(2, 3, 1)}
          \cup (IF Deep THEN {<<a, b, c>> : a \in CoreSet(1, 2, 2), b \in CoreSet(2, 2, 1), c \in CoreSet(1, 2, 1)} ELSE {})
Item(kk, v, lo, hi, st) == IF kk = "i" THEN [k |-> "i", v |-> v] ELSE [k |-> "s", lo |-> lo, hi |-> hi, st |-> st]
ItemSet == {Item("i", v, 0, 0, 0) : v \in {0, 1, -1}}
           \cup {Item("s", 0, None, None, None), Item("s", 0, 1, None, None), Item("s", 0, None, -1, None),
                 Item("s", 0, None, None, -1), Item("s", 0, 0, 1, 2)}
Bnd == {None} \cup (-6..6)
Init ==
  \/ /\ mode = "slice" /\ n = 0
     /\ x \in Trains
     /\ items \in [1..Len(x) -> ItemSet]
     /\ k = 0 /\ out = <<>> /\ rem = <<>>
  \/ /\ mode = "python"
     /\ n \in 1..(IF Deep THEN 5 ELSE 4)
     /\ x = <<>> /\ k = 0 /\ out = <<>> /\ rem = <<>>
     /\ \E lo \in Bnd, hi \in Bnd, st \in {None, 1, 2, 3, -1, -2} : items = <<Item("s", 0, lo, hi, st)>>
Step ==
  /\ mode = "slice" /\ k < Len(x)
  /\ k' = k + 1
  /\ UNCHANGED <<mode, n, x, items>>
  /\ LET c == SelCore(x[k + 1], ItemIdx(x[k + 1].n, items[k + 1]))
         p == IF rem = <<>> THEN c ELSE MatCore(rem[1], c)
     IN IF items[k + 1].k = "s" THEN out' = Append(out, p) /\ rem' = <<>>
        ELSE out' = out /\ rem' = <<p>>
Close ==
  /\ mode = "slice" /\ k = Len(x) /\ rem # <<>> /\ out # <<>>
  /\ out' = [out EXCEPT ![Len(out)] = CoreMat(out[Len(out)], rem[1])]
  /\ rem' = <<>>
  /\ UNCHANGED <<mode, n, x, items, k>>
Next == Step \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsObj == [kind |-> "tt", mat |-> FALSE, dt |-> "f64", bs |-> 1, rows |-> RowsOf(x), cols |-> ColsOf(x),
          rk |-> RanksOf(x), val |-> <<DenseOf(x)>>, den |-> 1, mag |-> 1, cores |-> <<>>]
Sel(i) == ItemIdx(x[i].n, items[i])
NonEmpty == \A i \in DOMAIN x : Len(Sel(i)) > 0
\* kept cores and the pending matrix contract to the restriction of the first k cores
LoopInv == (mode = "slice" /\ k >= 1 /\ k < Len(x) /\ NonEmpty) =>
             Contract(out \o rem).e = Contract(Tab(k, LAMBDA i : SelCore(x[i], Sel(i)))).e
SliceDone == (mode = "slice" /\ k = Len(x) /\ rem = <<>> /\ NonEmpty) =>
               LET e == SemSlice(AsObj, items)
               IN e.k = "obj" => IsTrain(out) /\ DenseOf(out) = e.val[1] /\ RowsOf(out) = e.rows
\* all integers: the pending matrix is the element
ElementDone == (mode = "slice" /\ k = Len(x) /\ out = <<>> /\ rem # <<>>) =>
                 rem[1].e = SemGather(AsObj, <<1, Len(x)>>, Tab(Len(x), LAMBDA i : Sel(i)[1])).val
\* the positions of a[lo:hi:st]: in range, in steps of st, starting at the
\* first admissible position, nothing missing
PySlice ==
  mode = "python" =>
  LET it == items[1]
      s == ItemIdx(n, it)
      st == IF it.st = None THEN 1 ELSE it.st
      wrap(v) == IF v < 0 THEN v + n ELSE v
      within(p) == /\ p \in 0..(n - 1)
                   /\ it.lo # None => (IF st > 0 THEN p >= wrap(it.lo) ELSE p <= wrap(it.lo))
                   /\ it.hi # None => (IF st > 0 THEN p < wrap(it.hi) ELSE p > wrap(it.hi))
      ok == {p \in 0..(n - 1) : within(p)}
  IN /\ \A i \in DOMAIN s : s[i] \in ok
     /\ \A i \in 1..(Len(s) - 1) : s[i + 1] = s[i] + st
     /\ (ok = {}) <=> (s = <<>>)
     /\ s # <<>> => /\ \A p \in ok : (IF st > 0 THEN s[1] <= p ELSE s[1] >= p)
                    /\ (s[Len(s)] + st) \notin ok
Digit == mode = "python" => \A q \in 0..(4 * n - 1) : Undigits(Digits(q, <<2, n, 2>>), <<2, n, 2>>) = q
=============================================================================
