------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The classical spin chain: state, observables and transitions.           *)
(*                                                                         *)
(* The module is written over an abstract scalar, so that the same text is *)
(* checked exhaustively over small integer lattices (ChainLattice.tla) and *)
(* evaluated in IEEE doubles against recorded executions of the real code  *)
(* (LibTrace.tla, RunTrace.tla ...).                                       *)
(*                                                                         *)
(* A chain is a record                                                     *)
(*   S  sequence of L spins (3-vectors)      J  bond couplings; J[n] joins *)
(*   H  static field of every site              site n and its successor   *)
(*   t  time                                                               *)
(*   c  parameters [dt, tau, e, hs, ssize, drive, beta, gamma, ...]        *)
(* Sites are numbered 1..L here; site 1 is the code's site 0 ("even").     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Add(_,_), Sub(_,_), Mul(_,_), Quo(_,_), Neg(_),
          Num(_),              \* integer literal as a scalar
          Half(_),             \* half of a scalar (times only)
          CosPh(_,_),          \* cos(2 pi t / tau)
          SinPh(_,_),          \* sin(2 pi t / tau)
          Rot(_,_,_)           \* Rot(s, f, dt): precession of s about f for dt

-----------------------------------------------------------------------------
(* vectors and sums *)
Zero == Num(0)
Vec0 == <<Zero, Zero, Zero>>
VAdd(a, b) == <<Add(a[1],b[1]), Add(a[2],b[2]), Add(a[3],b[3])>>
VSub(a, b) == <<Sub(a[1],b[1]), Sub(a[2],b[2]), Sub(a[3],b[3])>>
VHad(a, b) == <<Mul(a[1],b[1]), Mul(a[2],b[2]), Mul(a[3],b[3])>>   \* J S
VScale(x, a) == <<Mul(x,a[1]), Mul(x,a[2]), Mul(x,a[3])>>
Dot(a, b)  == Add(Add(Mul(a[1],b[1]), Mul(a[2],b[2])), Mul(a[3],b[3]))
Dot3(a, j, b) == Dot(a, VHad(j, b))                                \* a J b
Cross(a, b) == << Sub(Mul(a[2],b[3]), Mul(a[3],b[2])),
                  Sub(Mul(a[3],b[1]), Mul(a[1],b[3])),
                  Sub(Mul(a[1],b[2]), Mul(a[2],b[1])) >>
Idx(n)     == [i \in 1..n |-> i]
SumOver(f(_), n) == FoldLeft(LAMBDA acc, i : Add(acc, f(i)), Zero, Idx(n))
VSumOver(f(_), n) == FoldLeft(LAMBDA acc, i : VAdd(acc, f(i)), Vec0, Idx(n))

Len0(ch)   == Len(ch.S)
Prv(n, L)  == IF n = 1 THEN L ELSE n - 1
Nxt(n, L)  == IF n = L THEN 1 ELSE n + 1
Even(n)    == n % 2 = 1            \* the code's even sites 0, 2, ...
InSub(ch, n) == n <= ch.c.ssize

-----------------------------------------------------------------------------
(* the drive *)
Drive(c, t) ==
  CASE c.drive = "xyplane"     -> << CosPh(t, c.tau), SinPh(t, c.tau), Zero >>
    [] c.drive = "xyelliptic"  -> << CosPh(t, c.tau), Mul(c.e, SinPh(t, c.tau)), Zero >>
    [] c.drive = "uniaxial"    -> << CosPh(t, c.tau), Zero, Zero >>
    [] c.drive = "staticfield" -> << c.hs[1], c.hs[2], c.hs[3] >>
    [] c.drive = "none"        -> Vec0
(* (tau/2pi) dB/dt, used by the Langevin boundary flux *)
DriveP(c, t) ==
  CASE c.drive = "xyplane"     -> << Neg(SinPh(t, c.tau)), CosPh(t, c.tau), Zero >>
    [] c.drive = "xyelliptic"  -> << Neg(SinPh(t, c.tau)), Mul(c.e, CosPh(t, c.tau)), Zero >>
    [] c.drive = "uniaxial"    -> << Neg(SinPh(t, c.tau)), Zero, Zero >>
    [] c.drive = "staticfield" -> Vec0
    [] c.drive = "none"        -> Vec0

(* field on every site: static plus, on the subsystem, the drive d *)
Fields(ch, d) == TLCEval([n \in 1..Len0(ch) |->
                     IF InSub(ch, n) THEN VAdd(ch.H[n], d) ELSE ch.H[n]])
DriveOnly(ch, d) == TLCEval([n \in 1..Len0(ch) |-> IF InSub(ch, n) THEN d ELSE Vec0])

-----------------------------------------------------------------------------
(* precession: one checkerboard sub-step, and the symmetric splitting *)
Omega(S, J, B, n) ==
  LET L == Len(S) IN
  VSub(VAdd(VHad(J[Prv(n,L)], S[Prv(n,L)]), VHad(J[n], S[Nxt(n,L)])), B[n])

SubStep(S, J, B, even, dt) ==
  TLCEval([n \in 1..Len(S) |-> IF Even(n) = even THEN Rot(S[n], Omega(S, J, B, n), dt)
                                                 ELSE S[n]])
Splitting(S, J, B, dt) ==
  LET S1 == SubStep(S,  J, B, TRUE,  Half(dt))
      S2 == SubStep(S1, J, B, FALSE, dt)
  IN  SubStep(S2, J, B, TRUE, Half(dt))

(* the transitions of the closed chain *)
Advance(ch, B) == [ch EXCEPT !.S = Splitting(ch.S, ch.J, B, ch.c.dt),
                             !.t = Add(ch.t, ch.c.dt)]
MidDrive(ch)   == Drive(ch.c, Add(ch.t, Half(ch.c.dt)))
Update(ch)     == Advance(ch, Fields(ch, MidDrive(ch)))
UpdateNoField(ch) == Advance(ch, DriveOnly(ch, MidDrive(ch)))

(* the transition of the Langevin chain, given the noise vectors of the    *)
(* first and last site; W is the bare field of an open chain               *)
OpenOmega(S, J, B, n) ==
  LET L == Len(S)
      l == IF n = 1 THEN Vec0 ELSE VHad(J[n-1], S[n-1])
      r == IF n = L THEN Vec0 ELSE VHad(J[n], S[n+1])
  IN  VSub(VAdd(l, r), B[n])
LOmega(S, J, B, gamma, xl, xr, dt, n) ==
  LET L == Len(S)
      W == OpenOmega(S, J, B, n)
  IN  IF n \in {1, L}
      THEN VSub(VSub(W, VScale(gamma, Cross(S[n], W))),
                VScale(Quo(Num(1), dt), IF n = 1 THEN xl ELSE xr))
      ELSE W
LSubStep(S, J, B, gamma, xl, xr, dt, even, h) ==
  TLCEval([n \in 1..Len(S) |->
     IF Even(n) = even THEN Rot(S[n], LOmega(S, J, B, gamma, xl, xr, dt, n), h) ELSE S[n]])
LUpdate(ch, xl, xr) ==
  LET B  == Fields(ch, Drive(ch.c, Add(ch.t, ch.c.dt)))
      dt == ch.c.dt
      St(S, even, h) == LSubStep(S, ch.J, B, ch.c.gamma, xl, xr, dt, even, h)
      S1 == St(ch.S, TRUE, Half(dt))
      S2 == St(S1, FALSE, dt)
  IN  [ch EXCEPT !.S = St(S2, TRUE, Half(dt)), !.t = Add(ch.t, dt)]

-----------------------------------------------------------------------------
(* energies and magnetisations (sums; the observables divide by a length) *)
BondE(ch, n)   == Neg(Dot3(ch.S[n], ch.J[n], ch.S[Nxt(n, Len0(ch))]))
TotalSum(ch)   == LET L == Len0(ch)   F == Fields(ch, Drive(ch.c, ch.t)) IN
                  SumOver(LAMBDA n : Add(BondE(ch, n), Dot(ch.S[n], F[n])), L)
SystemSum(ch)  == LET F == Fields(ch, Drive(ch.c, ch.t)) IN
                  SumOver(LAMBDA n : Add(BondE(ch, n), Dot(ch.S[n], F[n])), ch.c.ssize - 1)
StaticSum(ch)  == SumOver(LAMBDA n : Add(BondE(ch, n), Dot(ch.S[n], ch.H[n])), Len0(ch))
ClosedBond(ch, n, k) == Neg(Dot3(ch.S[n], ch.J[n], ch.S[IF n = k THEN 1 ELSE n + 1]))
McSystemSum(ch) == SumOver(LAMBDA n : Add(ClosedBond(ch, n, ch.c.ssize), Dot(ch.S[n], ch.H[n])),
                           ch.c.ssize)
TotalE(ch)    == Quo(TotalSum(ch), Num(Len0(ch)))
SystemE(ch)   == Quo(SystemSum(ch), Num(ch.c.ssize - 1))
McTotalE(ch)  == Quo(StaticSum(ch), Num(Len0(ch)))
McSystemE(ch) == Quo(McSystemSum(ch), Num(ch.c.ssize))
Mag(ch)       == VSumOver(LAMBDA n : ch.S[n], ch.c.ssize)
MagTot(ch)    == VSumOver(LAMBDA n : ch.S[n], Len0(ch))
(* energy with the drive frozen at d: what one time step conserves *)
FrozenSum(ch, d) == LET F == Fields(ch, d) IN
                    SumOver(LAMBDA n : Add(BondE(ch, n), Dot(ch.S[n], F[n])), Len0(ch))

-----------------------------------------------------------------------------
(* effective Hamiltonians of the Monte-Carlo modes; om = 2 pi / tau *)
Plain(ch)  == SumOver(LAMBDA n : BondE(ch, n), Len0(ch))
XY(a, b)   == Add(Mul(a[1],b[1]), Mul(a[2],b[2]))
(* z-component of i times the in-plane product of a and b *)
Zxi(a, b, i) == Mul(i[3], XY(a, b))

(* leading correction in the rotating frame: one term per bond, two per centre *)
RotMg(ch) ==
  LET L == Len0(ch)
      D(n) == Sub(ch.J[n][2], ch.J[n][1])
      Bd(n) == LET a == ch.S[n]  b == ch.S[Nxt(n,L)] IN
               Mul(Mul(D(n), D(n)), Add(Zxi(a, a, b), Zxi(b, b, a)))
      Ce(n) == LET l == ch.S[Prv(n,L)]  r == ch.S[Nxt(n,L)] IN
               Mul(Mul(D(Prv(n,L)), D(n)), Mul(Num(2), Zxi(l, r, ch.S[n])))
  IN  SumOver(LAMBDA n : Add(Bd(n), Ce(n)), L)
HRot(ch, om) ==
  LET L == Len0(ch)
      Bd(n) == LET a == ch.S[n]  b == ch.S[Nxt(n,L)]  j == ch.J[n] IN
               Neg(Add(Quo(Mul(Add(j[1], j[2]), XY(a, b)), Num(2)), Mul(j[3], Mul(a[3], b[3]))))
      Fl(n) == Sub(IF InSub(ch, n) THEN ch.S[n][1] ELSE Zero, Mul(om, ch.S[n][3]))
  IN  Sub(SumOver(LAMBDA n : Add(Bd(n), Fl(n)), L), Quo(RotMg(ch), Mul(Num(16), om)))

HMaglab(ch, om) ==
  Sub(Plain(ch), Quo(SumOver(LAMBDA n : ch.S[n][3], Len0(ch)), Mul(Num(2), om)))

Neigh(ch, n) == LET L == Len0(ch) IN
  VAdd(VHad(ch.J[Prv(n,L)], ch.S[Prv(n,L)]), VHad(ch.J[n], ch.S[Nxt(n,L)]))
HMagnus(ch, om) ==
  LET T(n) == LET A == Neigh(ch, n)  s == ch.S[n] IN
              Add(s[3], Mul(Num(2), Cross(A, s)[2]))
  IN  Sub(Plain(ch), Mul(Half(om), SumOver(T, ch.c.ssize)))

(* second order, the whole chain driven *)
HFull(ch, om) ==
  LET L == Len0(ch)
      P(n) == Prv(n, L)   N(n) == Nxt(n, L)
      S(n) == ch.S[n]     J(n) == ch.J[n]
      E1(n) == LET a == S(n)  b == S(N(n))  j == J(n) IN
               Neg(Add(Half(a[3]), Mul(Sub(j[3], j[1]), Add(Mul(a[1],b[3]), Mul(a[3],b[1])))))
      B2(n) == LET a == S(n)  b == S(N(n))  j == J(n)
                   xx == Mul(a[1],b[1])  yy == Mul(a[2],b[2])  zz == Mul(a[3],b[3]) IN
               Neg(Half(Add(Add(Mul(j[2],zz), Mul(j[3],yy)),
                            Mul(Num(3), Add(Mul(j[1],zz), Mul(j[3],xx))))))
      T1(n) == LET A == Neigh(ch, n)  s == S(n) IN Sub(Mul(A[1], Dot(s, A)), Mul(s[1], Dot(A, A)))
      Two(A, s, j, u) == Sub(Mul(Sub(Mul(A[3],s[1]), Mul(A[1],s[3])), Mul(j[2],u[3])),
                             Mul(Sub(Mul(A[1],s[2]), Mul(A[2],s[1])), Mul(j[3],u[2])))
      T2(n) == Two(Neigh(ch, P(n)), S(P(n)), J(P(n)), S(n))
      T3(n) == Two(Neigh(ch, N(n)), S(N(n)), J(n), S(n))
      E2(n) == Add(Add(Half(S(n)[1]), B2(n)), Add(T1(n), Add(T2(n), T3(n))))
  IN  Add(Plain(ch), Add(Quo(SumOver(E1, L), om), Quo(SumOver(E2, L), Mul(om, om))))

-----------------------------------------------------------------------------
(* log records *)
Qtr(ch, k) == ch.S[(k * ch.c.ssize) \div 4 + 1]     \* first / third quarter of the subsystem
LogLine(ch) ==
  LET s == Num(ch.c.ssize)  m == Mag(ch)  mt == MagTot(ch)  a == Qtr(ch, 1)  b == Qtr(ch, 3) IN
  << ch.t, TotalE(ch), SystemE(ch), Quo(m[1], s), Quo(m[2], s), Quo(m[3], s),
     Quo(mt[3], Num(Len0(ch))), a[1], a[2], a[3], b[1], b[2], b[3] >>
(* Monte-Carlo / histogram samples *)
McLine(ch) ==
  LET s == Num(ch.c.ssize)  m == Mag(ch)  a == Qtr(ch, 1)  b == Qtr(ch, 3) IN
  << TotalE(ch), McSystemE(ch), Quo(m[1], s), Quo(m[2], s), Quo(m[3], s),
     a[1], a[2], a[3], b[1], b[2], b[3] >>
(* extended records: interior subsystem sites only *)
ExtSites(ch) == { n \in 2..(Len0(ch) - 1) : n <= ch.c.ssize }
ExtLine(ch, n) ==
  LET F == Fields(ch, Drive(ch.c, ch.t)) IN
  << ch.t, Num(n - 1),
     Add(Half(Add(BondE(ch, n - 1), BondE(ch, n))), Dot(F[n], ch.S[n])),
     ch.S[n][1], ch.S[n][2], ch.S[n][3] >>
(* energy of the open chain, the one the flux is the rate of change of *)
OpenSum(ch) == LET L == Len0(ch)  F == Fields(ch, Drive(ch.c, ch.t)) IN
  Add(SumOver(LAMBDA n : BondE(ch, n), L - 1), SumOver(LAMBDA n : Dot(F[n], ch.S[n]), L))
(* Langevin record; twopi is 2 pi *)
LBoundary(ch, twopi) ==
  LET k == ch.c.ssize
      d == Drive(ch.c, ch.t)
      s1 == ch.S[1]   sl == ch.S[k]
      w1 == VSub(VHad(ch.J[1], ch.S[2]), VAdd(ch.H[1], d))
      wl == VSub(VHad(ch.J[k-1], ch.S[k-1]), VAdd(ch.H[k], d))
      a1 == Dot(w1, s1)   al == Dot(wl, sl)
      Perp(s, w, a) == Sub(Mul(Dot(s, s), Dot(w, w)), Mul(a, a))
  IN  Add(Sub(Quo(Mul(Mul(Num(2), ch.c.gamma), Add(a1, al)), ch.c.beta),
              Mul(ch.c.gamma, Add(Perp(s1, w1, a1), Perp(sl, wl, al)))),
          Quo(Mul(twopi, Dot(DriveP(ch.c, ch.t), Mag(ch))), ch.c.tau))
LLogLine(ch, twopi) ==
  LET s == Num(ch.c.ssize)  m == Mag(ch)  mt == MagTot(ch) IN
  << ch.t, SystemE(ch), SystemE(ch), Quo(m[1], s), Quo(m[2], s), Quo(m[3], s),
     Quo(mt[3], Num(Len0(ch))), LBoundary(ch, twopi) >>

(* bond energy of a site in the profiles: half of its two bonds *)
SiteE(ch, n) == Half(Add(BondE(ch, Prv(n, Len0(ch))), BondE(ch, n)))

(* spectrum: entry n (1..L) is the power at k = n - 1 - L/2 *)
Spectrum(ch) ==
  LET L == Len0(ch)
      Amp(n) ==
        LET k == (n - 1 - (L \div 2)) % L
            C == VSumOver(LAMBDA j : VScale(CosPh(Num((k * (j-1)) % L), Num(L)), ch.S[j]), L)
            D == VSumOver(LAMBDA j : VScale(SinPh(Num((k * (j-1)) % L), Num(L)), ch.S[j]), L)
        IN  Add(Dot(C, C), Dot(D, D))
  IN  [n \in 1..L |-> Amp(n)]
=============================================================================
