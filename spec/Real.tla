-------------------------------- MODULE Real --------------------------------
(* Chain.tla over IEEE doubles, and comparisons.                           *)
EXTENDS F64, Integers, Sequences, SequencesExt, TLC

F(s) == FVal(s)
TwoPi == FMul(FInt(2), F("3.141592653589793"))
Pi == F("3.141592653589793")
Phase(t, tau) == FDiv(FMul(TwoPi, t), tau)

NormF(f) == FSqrt(FAdd(FAdd(FMul(f[1],f[1]), FMul(f[2],f[2])), FMul(f[3],f[3])))
CrossF(a, b) == << FSub(FMul(a[2],b[3]), FMul(a[3],b[2])),
                   FSub(FMul(a[3],b[1]), FMul(a[1],b[3])),
                   FSub(FMul(a[1],b[2]), FMul(a[2],b[1])) >>
DotF(a, b) == FAdd(FAdd(FMul(a[1],b[1]), FMul(a[2],b[2])), FMul(a[3],b[3]))
(* turn s by angle a about the unit vector u, right-handedly *)
Turn(s, u, a) ==
  LET c == FCos(a)  n == FSin(a)  p == FMul(DotF(s, u), FSub(FInt(1), c))  x == CrossF(u, s)
  IN  [k \in 1..3 |-> FAdd(FAdd(FMul(s[k], c), FMul(x[k], n)), FMul(u[k], p))]
Unit(v) == LET n == NormF(v) IN [k \in 1..3 |-> FDiv(v[k], n)]
(* dS/dt = S x f for a time dt: a turn by -|f|dt about f; no field, no turn *)
RotF(s, f, dt) ==
  LET n == NormF(f) IN
  IF n = FInt(0) THEN s ELSE Turn(s, Unit(f), FNeg(FMul(n, dt)))

Ch == INSTANCE Chain WITH Add <- FAdd, Sub <- FSub, Mul <- FMul, Quo <- FDiv, Neg <- FNeg,
        Num <- FInt, Half <- LAMBDA x : FDiv(x, FInt(2)),
        CosPh <- LAMBDA t, tau : FCos(Phase(t, tau)),
        SinPh <- LAMBDA t, tau : FSin(Phase(t, tau)), Rot <- RotF

-----------------------------------------------------------------------------
(* comparisons *)
Near(a, b, tol) == FClose(a, b, F(tol))
NearV(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : Near(a[k], b[k], tol)
NearS(a, b, tol) == Len(a) = Len(b) /\ \A n \in 1..Len(b) : NearV(a[n], b[n], tol)
IsUnit(s) == Len(s) = 3 /\ (\A k \in 1..3 : FFinite(s[k])) /\ Near(NormF(s), FInt(1), "1e-9")
AllUnit(S) == \A n \in 1..Len(S) : IsUnit(S[n])
Chk(name, ok) == IF ok THEN {} ELSE {name}
OUT(st, bad) == [st |-> st, bad |-> bad]
=============================================================================
