---------------------------- MODULE ChainLattice ----------------------------
(***************************************************************************)
(* The chain as a transition system over the integer lattice, explored     *)
(* exhaustively: time steps, steps without static field and Monte-Carlo    *)
(* replacements of single spins, from every state.                         *)
(* Order = FALSE is a deliberately wrong step (even sites for the whole    *)
(* dt, then odd ones), Local = FALSE a wrong local energy (left bond only).*)
(***************************************************************************)
EXTENDS Lattice
CONSTANTS Order, Local, MaxT, Wide
VARIABLE ch
Uni(L, j) == [n \in 1..L |-> j]
Js2 == { << <<1,1,1>>, <<1,1,1>> >>, << <<1,1,0>>, <<1,1,2>> >>, << <<0,0,0>>, <<1,1,-1>> >> }
Js4 == { Uni(4, <<1,1,1>>), << <<1,1,1>>, <<0,0,0>>, <<1,1,-1>>, <<0,0,0>> >>, << <<1,1,2>>, <<1,1,0>>, <<0,0,0>>, <<1,1,1>> >> }
Hs2 == { << <<0,0,0>>, <<0,0,0>> >>, << <<0,0,1>>, <<-1,0,0>> >> }
Hs4 == { Uni(4, <<0,0,0>>), << <<0,0,1>>, <<0,0,-2>>, <<0,1,0>>, <<0,0,1>> >> }
Par(d, s, dt) == [dt |-> dt, tau |-> 4, e |-> 2, hs |-> <<0,0,1>>, ssize |-> s, drive |-> d]
Starts ==
  { [S |-> Uni(2, <<0,0,1>>), J |-> j, H |-> h, t |-> t, c |-> Par(d, s, dt)] :
      j \in Js2, h \in Hs2, t \in {-1, 0}, d \in Drives, s \in 1..2, dt \in {2, -2} }
  \cup { [S |-> Uni(4, <<0,0,1>>), J |-> j, H |-> h, t |-> 0, c |-> Par(d, s, 2)] :
      j \in Js4, h \in Hs4, d \in (IF Wide THEN Drives ELSE {"xyplane", "none"}), s \in (IF Wide THEN 1..4 ELSE {3}) }
Wrong(c) == LET B == Ch!Fields(c, Ch!MidDrive(c))
                S1 == Ch!SubStep(c.S, c.J, B, TRUE, c.c.dt)
            IN  [c EXCEPT !.S = Ch!SubStep(S1, c.J, B, FALSE, c.c.dt), !.t = @ + c.c.dt]
Step(c) == IF Order THEN Ch!Update(c) ELSE Wrong(c)
Init == ch \in Starts
Tick == /\ OnLattice(Step(ch).S) /\ ch' = Step(ch)
TickNF == LET n == Ch!UpdateNoField(ch) IN OnLattice(n.S) /\ ch' = n
Replace == \E n \in 1..Len(ch.S), s \in Axes : ch' = [ch EXCEPT !.S[n] = s]
Next == Tick \/ TickNF \/ Replace
Spec == Init /\ [][Next]_ch
Bound == IAbs(ch.t) <= MaxT

(* C01, C03, C04 *)
UnitSpins == OnLattice(ch.S)
EnergyKept == \A n \in { Step(ch) } : OnLattice(n.S) =>
                 LET d == Ch!MidDrive(ch) IN Ch!FrozenSum(n, d) = Ch!FrozenSum(ch, d)
Reversible == \A n \in { Step(ch) } : OnLattice(n.S) => Back(Step(Back(n))) = ch
ReversibleNF == \A n \in { Ch!UpdateNoField(ch) } : OnLattice(n.S) => Back(Ch!UpdateNoField(Back(n))) = ch
(* C05 *)
DriveOnSubsystem == \A n \in 1..Len(ch.S) : n > ch.c.ssize => Ch!Fields(ch, Ch!Drive(ch.c, ch.t))[n] = ch.H[n]
(* C06: local form of the energy change, as a Monte-Carlo move computes it *)
Delta(n, s) == LET L == Len(ch.S)
                   w == IF Local THEN Ch!Neigh(ch, n) ELSE Ch!VHad(ch.J[Ch!Prv(n, L)], ch.S[Ch!Prv(n, L)])
               IN  Ch!Dot(Ch!VSub(s, ch.S[n]), Ch!VSub(ch.H[n], w))
LocalChange == \A n \in 1..Len(ch.S), s \in Axes :
                 Ch!StaticSum([ch EXCEPT !.S[n] = s]) - Ch!StaticSum(ch) = Delta(n, s)
(* C12: the extended records' energies add up to the whole, every site being interior once *)
BondsTwice == LET L == Len(ch.S) IN
   Ch!SumOver(LAMBDA n : Ch!BondE(ch, Ch!Prv(n, L)) + Ch!BondE(ch, n), L) = 2 * Ch!SumOver(LAMBDA n : Ch!BondE(ch, n), L)
(* C13 *)
SpectrumOk == LET L == Len(ch.S)  p == Ch!Spectrum(ch) IN
   /\ Ch!SumOver(LAMBDA n : p[n], L) = L * L
   /\ \A n \in 1..L : p[n] >= 0
   /\ \A n \in 2..L : p[n] = p[L + 2 - n]
   /\ p = Ch!Spectrum([ch EXCEPT !.S = [n \in 1..L |-> ch.S[Ch!Nxt(n, L)]]])
=============================================================================
