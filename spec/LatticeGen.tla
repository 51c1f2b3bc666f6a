----------------------------- MODULE LatticeGen -----------------------------
(***************************************************************************)
(* Lattice states with everything Chain.tla predicts for them, for replay  *)
(* in the real code: random members of the whole family (-seed).           *)
(***************************************************************************)
EXTENDS Lattice, Json, IOUtils, Randomization
Count == atoi(IOEnv.COUNT)
Js == { <<1,1,1>>, <<0,0,0>>, <<1,1,-1>>, <<2,1,0>> }
Hs == { <<0,0,0>>, <<0,0,1>>, <<0,0,-2>>, <<1,0,0>>, <<0,-1,0>> }
Cs(L) == [dt : {2, -2, 4}, tau : {2, 4}, e : {2, -1}, hs : {<<0,0,1>>, <<1,0,0>>, <<0,2,0>>}, ssize : 1..L, drive : Drives, gamma : {0}]
Raw(L) == [S : [1..L -> Axes], J : [1..L -> Js], H : [1..L -> Hs], t : -3..4, c : Cs(L)]
(* Langevin chains have equal couplings <<1, 1, lambda>> *)
Lan(L) == [S : [1..L -> Axes], J : {[n \in 1..L |-> <<1,1,l>>] : l \in {-1, 0, 1, 2}}, H : [1..L -> Hs \cup {<<0,0,0>>}], t : -3..4, c : Cs(L)]
Pred(ch) ==
  LET u == Ch!Update(ch)  v == Ch!UpdateNoField(ch)
      ok(x) == IF OnLattice(x.S) THEN x.S ELSE <<>>
  IN  [ch |-> ch, k |-> "c", up |-> ok(u), nf |-> ok(v), t2 |-> u.t,
       tot |-> Ch!TotalSum(ch), sys |-> Ch!SystemSum(ch), mct |-> Ch!StaticSum(ch), mcs |-> Ch!McSystemSum(ch),
       m |-> Ch!Mag(ch), mt |-> Ch!MagTot(ch),
       q1 |-> Ch!Qtr(ch, 1), q3 |-> Ch!Qtr(ch, 3),
       spec |-> IF Len(ch.S) \in {2, 4} THEN Ch!Spectrum(ch) ELSE <<>>]
LPred(ch) ==
  LET u == Ch!LUpdate(ch, <<0,0,0>>, <<0,0,0>>) IN
  [ch |-> ch, k |-> "l", up |-> IF OnLattice(u.S) THEN u.S ELSE <<>>, t2 |-> u.t,
   tot |-> Ch!TotalSum(ch), sys |-> Ch!SystemSum(ch), m |-> Ch!Mag(ch), mt |-> Ch!MagTot(ch)]
Take(n, s) == SetToSeq(RandomSubset(n, s))
Useful(r) == r.up # <<>> \/ (r.k = "c" /\ r.nf # <<>>)
All == TLCEval(
  LET a == Take(Count, Raw(2))  b == Take(4 * Count, Raw(4))  d == Take(Count, Raw(6))
      l == Take(2 * Count, Lan(4))
      P(s) == [i \in 1..Len(s) |-> TLCEval(Pred(s[i]))]
  IN  P(a) \o P(b) \o P(d) \o [i \in 1..Len(l) |-> TLCEval(LPred(l[i]))])
ASSUME ndJsonSerialize(IOEnv.CASES, All)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
