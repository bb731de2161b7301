------------------------------- MODULE MC_Tree ------------------------------
(***************************************************************************)
(* Summation in a tree: neighbouring summands are added in pairs until one *)
(* is left.  Every partial sum consists of neighbouring summands, nothing  *)
(* is lost or counted twice, and the summation ends after about log2 n     *)
(* rounds.  The batch version pairs the even with the odd elements.        *)
(***************************************************************************)
EXTENDS Base
CONSTANT MaxN
VARIABLES n, lst, rounds
vars == <<n, lst, rounds>>
Init == n \in 1..MaxN /\ lst = Tab(n, LAMBDA i : <<i>>) /\ rounds = 0
Pairs(s) == Tab(Len(s) \div 2, LAMBDA i : s[2 * i - 1] \o s[2 * i]) \o (IF Len(s) % 2 = 1 THEN <<s[Len(s)]>> ELSE <<>>)
Next == Len(lst) > 1 /\ lst' = Pairs(lst) /\ rounds' = rounds + 1 /\ n' = n
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conserved == Flat(lst) = Tab(n, LAMBDA i : i)
Neighbours == \A i \in DOMAIN lst : \A j \in 1..(Len(lst[i]) - 1) : lst[i][j + 1] = lst[i][j] + 1
Rounds == Len(lst) = 1 => (Pow(2, rounds) >= n /\ (rounds = 0 \/ Pow(2, rounds - 1) < n))
Ends == <>(Len(lst) = 1)
=============================================================================
