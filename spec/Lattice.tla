------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Chain.tla over the integers: spins along the axes, times in units of a  *)
(* quarter turn at unit field (pi/2), fields along an axis with an integer *)
(* length.  A precession the lattice cannot hold yields <<9,9,9>>.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
IAbs(x) == IF x < 0 THEN 0 - x ELSE x
(* quarter turn by q about the k-th axis, right-handedly *)
Quarter(s, k) == CASE k = 1 -> << s[1], 0 - s[3], s[2] >> [] k = 2 -> << s[3], s[2], 0 - s[1] >>
                   [] k = 3 -> << 0 - s[2], s[1], s[3] >>
Turns(s, k, q) == CASE q % 4 = 0 -> s [] q % 4 = 1 -> Quarter(s, k) [] q % 4 = 2 -> Quarter(Quarter(s, k), k)
                    [] q % 4 = 3 -> Quarter(Quarter(Quarter(s, k), k), k)
AxisOf(f) == { k \in 1..3 : f[k] # 0 }
RotI(s, f, dt) ==
  IF AxisOf(f) = {} THEN s
  ELSE IF Cardinality(AxisOf(f)) > 1 THEN <<9, 9, 9>>
  ELSE LET k == CHOOSE x \in AxisOf(f) : TRUE IN Turns(s, k, 0 - f[k] * dt)
(* phase t/tau in quarters; 9 if it is none *)
CosQ(q) == CASE q = 0 -> 1 [] q = 1 -> 0 [] q = 2 -> -1 [] q = 3 -> 0
SinQ(q) == CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> 0 [] q = 3 -> -1
CosI(t, tau) == IF (4 * t) % tau # 0 THEN 9 ELSE CosQ(((4 * t) \div tau) % 4)
SinI(t, tau) == IF (4 * t) % tau # 0 THEN 9 ELSE SinQ(((4 * t) \div tau) % 4)
Ch == INSTANCE Chain WITH Add <- LAMBDA a, b : a + b, Sub <- LAMBDA a, b : a - b, Mul <- LAMBDA a, b : a * b,
        Quo <- LAMBDA a, b : a \div b, Neg <- LAMBDA a : 0 - a, Num <- LAMBDA n : n, Half <- LAMBDA x : x \div 2,
        CosPh <- CosI, SinPh <- SinI, Rot <- RotI
Axes == { <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>> }
OnLattice(S) == \A n \in 1..Len(S) : S[n] \in Axes
Drives == {"xyplane", "xyelliptic", "uniaxial", "staticfield", "none"}
Back(ch) == [ch EXCEPT !.c.dt = 0 - @]
=============================================================================
