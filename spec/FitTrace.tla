------------------------------ MODULE FitTrace ------------------------------
(***************************************************************************)
(* Validates the temperature fits of the real program: every step of the   *)
(* bisection is one of Bisect.tla, every energy estimate is the mean of    *)
(* the mode's own ensemble (exact quadrature for two sites), and so is     *)
(* what is recorded at the temperature found.                              *)
(***************************************************************************)
EXTENDS Real, Json, IOUtils, FiniteSets
Nums(x) == \A i \in 1..Len(x) : FIsNum(x[i])
VMul(s, v) == [k \in 1..3 |-> FMul(s, v[k])]
VPlus(a, b) == [k \in 1..3 |-> FAdd(a[k], b[k])]
VMinus(a, b) == [k \in 1..3 |-> FSub(a[k], b[k])]
Had(a, b) == [k \in 1..3 |-> FMul(a[k], b[k])]
Vec(x, y, z) == << x, y, z >>
One == FInt(1)
Zero == FInt(0)
(* Gauss-Legendre nodes and weights on [-1, 1], weights halved             *)
GL == FVals(
  << <<"-0.99644249757395442", "0.0045621412965473687">>, <<"-0.9813031653708727", "0.010566056296386081">>,
     <<"-0.95425928062893817", "0.016450713891152265">>, <<"-0.91563302639213207", "0.022136467379501996">>,
     <<"-0.86589252257439497", "0.027553672837858392">>, <<"-0.80564137091717913", "0.032636461983499836">>,
     <<"-0.73561087801363179", "0.037323107117284329">>, <<"-0.65665109403886501", "0.041556708614450467">>,
     <<"-0.56972047181140173", "0.045285872196516412">>, <<"-0.47587422495511827", "0.048465328998964913">>,
     <<"-0.3762515160890787", "0.051056483789030292">>, <<"-0.27206162763517805", "0.053027882961423134">>,
     <<"-0.16456928213338076", "0.054355596129147012">>, <<"-0.055079289884034273", "0.055023506508237549">>,
     <<"0.055079289884034273", "0.055023506508237549">>, <<"0.16456928213338076", "0.054355596129147012">>,
     <<"0.27206162763517805", "0.053027882961423134">>, <<"0.3762515160890787", "0.051056483789030292">>,
     <<"0.47587422495511827", "0.048465328998964913">>, <<"0.56972047181140173", "0.045285872196516412">>,
     <<"0.65665109403886501", "0.041556708614450467">>, <<"0.73561087801363179", "0.037323107117284329">>,
     <<"0.80564137091717913", "0.032636461983499836">>, <<"0.86589252257439497", "0.027553672837858392">>,
     <<"0.91563302639213207", "0.022136467379501996">>, <<"0.95425928062893817", "0.016450713891152265">>,
     <<"0.9813031653708727", "0.010566056296386081">>, <<"0.99644249757395442", "0.0045621412965473687">> >>)
NPhi == 28
(* quadrature nodes on the sphere: direction and weight, weights adding up to 1 *)
Nodes == TLCEval([i \in 1..(28 * NPhi) |->
  LET g == GL[((i - 1) \div NPhi) + 1]
      ph == FDiv(FMul(TwoPi, FInt((i - 1) % NPhi)), FInt(NPhi))
      r == FSqrt(FSub(One, FMul(g[1], g[1]))) IN
  [s |-> << FMul(r, FCos(ph)), FMul(r, FSin(ph)), g[1] >>, w |-> FDiv(g[2], FInt(NPhi))]])
(* two sites on a ring (two equal bonds J) in fields h1, h2 at inverse     *)
(* temperature b: means of the energy per site with fields a1, a2 instead, *)
(* of its square, and of the magnetisation per site.  The second spin is   *)
(* integrated exactly: it sees the field h2 - 2 J S1.                      *)
Quad(b, j, h1, h2, a1, a2) ==
  LET sh == FMul(b, FAdd(FAdd(NormF(h1), NormF(h2)), FInt(2)))
      N(i) ==
        LET s == Nodes[i].s
            f == VMinus(h2, VMul(FInt(2), Had(j, s)))
            n == NormF(f)
            x == FMul(b, n)
            ex == FExp(FMul(FInt(-2), x))
            small == FLt(x, F("1e-4"))
            lz == IF small THEN Zero ELSE FAdd(x, FLn(FDiv(FSub(One, ex), FMul(FInt(2), x))))      \* ln sinh(x)/x
            lg == IF small THEN FDiv(x, FInt(3)) ELSE FSub(FDiv(FAdd(One, ex), FSub(One, ex)), FDiv(One, x))
            lox == IF small THEN FDiv(One, FInt(3)) ELSE FDiv(lg, x)
            u == IF n = Zero THEN << Zero, Zero, One >> ELSE VMul(FDiv(One, n), f)
            m2 == VMul(FNeg(lg), u)
            v == VMinus(a2, VMul(FInt(2), Had(j, s)))
            vp == DotF(v, u)
            c0 == DotF(a1, s)
            mv == DotF(v, m2)
            v2 == FAdd(FMul(FMul(vp, vp), FSub(One, FMul(FInt(2), lox))), FMul(FSub(DotF(v, v), FMul(vp, vp)), lox))
        IN  [w |-> FMul(Nodes[i].w, FExp(FSub(FSub(lz, FMul(b, DotF(h1, s))), sh))),
             e |-> FAdd(c0, mv), e2 |-> FAdd(FMul(c0, c0), FAdd(FMul(FInt(2), FMul(c0, mv)), v2)),
             m |-> VPlus(s, m2)]
      T == TLCEval([i \in 1..Len(Nodes) |-> TLCEval(N(i))])
      Z == FSum([i \in 1..Len(T) |-> T[i].w])
      av(g(_)) == FDiv(FSum([i \in 1..Len(T) |-> FMul(T[i].w, g(T[i]))]), Z)
      e == av(LAMBDA t : t.e)
      e2 == av(LAMBDA t : t.e2)
      m(k) == av(LAMBDA t : t.m[k])
      var == FSub(e2, FMul(e, e))
  IN  [e |-> FDiv(e, FInt(2)), sd |-> FDiv(FSqrt(IF FLt(var, Zero) THEN Zero ELSE var), FInt(2)),
       m |-> << FDiv(m(1), FInt(2)), FDiv(m(2), FInt(2)), FDiv(m(3), FInt(2)) >>]

Om(e) == FDiv(TwoPi, e.tau)
Ux == << One, Zero, Zero >>
Rest(e) == VPlus(e.c.hfield, e.c.hs)             \* configured fields, whole chain driven
Rotf(e) == << One, Zero, FNeg(Om(e)) >>
High(e) == << Zero, Zero, FNeg(FDiv(One, FMul(FInt(2), Om(e)))) >>
OnSub(e, n, v) == IF n <= e.c.ssize THEN v ELSE Vec(Zero, Zero, Zero)
(* fields of the ensemble a fit samples, and of the energy it evaluates    *)
FitH(e, n) == CASE e.kind = "f" -> Rotf(e)
                [] e.kind = "A" -> VPlus(e.c.hfield, Rotf(e))
                [] e.kind \in {"F", "D", "r"} -> VPlus(OnSub(e, n, Ux), << Zero, Zero, FNeg(Om(e)) >>)
                [] e.kind = "E" -> High(e)
FitA(e, n) == CASE e.kind \in {"f", "A"} -> VPlus(FitH(e, n), << Zero, Zero, Om(e) >>) [] OTHER -> FitH(e, n)
(* and for the observables recorded with it: the whole chain is driven     *)
ObsH(e) == CASE e.kind \in {"f", "F", "r"} -> Rotf(e) [] e.kind = "A" -> VPlus(e.c.hfield, Rotf(e))
             [] e.kind = "E" -> High(e) [] e.kind = "H" -> VPlus(High(e), e.c.hs)
ObsA(e) == CASE e.kind \in {"f", "A"} -> VPlus(ObsH(e), << Zero, Zero, Om(e) >>) [] e.kind \in {"F", "H"} -> ObsH(e)
             [] e.kind \in {"r", "E"} -> VPlus(Rest(e), Ux)
Jv(e) == << One, One, e.c.lambda >>
Two(e) == e.c.jvar = Zero /\ e.c.hvar = Zero /\ (IF e.kind = "f" THEN e.c.ssize ELSE e.c.hsize) = 2
(* where the moves mix well and the quadrature is accurate                 *)
Mild(b, h) == FLe(FMul(b, FAdd(NormF(h), FInt(2))), FInt(14))
FitQ(e, b) == Quad(b, Jv(e), FitH(e, 1), FitH(e, 2), FitA(e, 1), FitA(e, 2))
Within(x, q, n) == FLe(FAbs(FSub(x, q.e)), FAdd(FDiv(FMul(FInt(10), q.sd), FSqrt(FInt(n))), F("1e-4")))

(* one step of the bisection *)
Lo(s) == s[1]  
Mi(s) == s[2]  
Hi(s) == s[3]
Start(e) == LET s == e.steps[1] IN
  /\ Near(Lo(s), IF e.kind \in {"r", "E"} THEN F("0.0001") ELSE F("0.01"), "1e-12") /\ Near(Hi(s), FInt(5), "1e-12")
MidOk(s) == Near(Mi(s), FDiv(FAdd(Lo(s), Hi(s)), FInt(2)), "1e-12")
StepOk(e, i) ==
  LET s == e.steps[i]  t == e.steps[i + 1]  hot == FLt(e.target, s[5]) IN
  /\ FLt(F("0.001"), FSub(Hi(s), Lo(s)))
  /\ IF hot THEN Lo(t) = Mi(s) /\ t[4] = s[5] /\ Hi(t) = Hi(s) /\ t[6] = s[6]
     ELSE Hi(t) = Mi(s) /\ t[6] = s[5] /\ Lo(t) = Lo(s) /\ t[4] = s[4]
Fin(e) == e.steps[Len(e.steps)]
Est(e, b, x) == Two(e) /\ Mild(b, FitH(e, 1)) => Within(x, FitQ(e, b), 1000)

Width(e) == CASE e.kind = "D" -> 3 [] e.kind = "A" -> 8 [] OTHER -> 7
Beta(e) == IF e.kind = "H" THEN e.b ELSE e.rec[1][3]
(* energy, magnetisation start at column o + 1 *)
ObsOk(e) ==
  LET b == Beta(e)  x == e.rec[1] IN
  (Two(e) /\ Mild(b, ObsH(e))) =>
    \E q \in { Quad(b, Jv(e), ObsH(e), ObsH(e), ObsA(e), ObsA(e)) } :
      /\ Within(x[4], q, 8000)
      /\ \A k \in 1..3 : FLe(FAbs(FSub(x[4 + k], q.m[k])), F("0.06"))
(* the fitted temperature gives the target energy, or the bracket's end is reached *)
FoundOk(e) ==
  LET b == Beta(e) IN
  (Two(e) /\ Mild(b, FitH(e, 1))) =>
    \E q \in { FitQ(e, b) } :
      LET tol == FAdd(FDiv(FMul(FInt(10), q.sd), FSqrt(FInt(1000))), F("0.01")) IN
      \/ FLe(FAbs(FSub(q.e, e.target)), tol)
      \/ FLt(q.e, e.target) /\ FLt(b, F("0.02"))
      \/ FLt(e.target, q.e) /\ FLt(F("4.99"), b)
GammaOk(x, a) ==
  LET n9 == FMul(FInt(9), FInt(a))
      r  == FExp(FDiv(FLn(FDiv(x, FInt(a))), FInt(3)))
      z  == FDiv(FSub(r, FSub(FInt(1), FDiv(FInt(1), n9))), FSqrt(FDiv(FInt(1), n9)))
  IN  FLt(FInt(0), x) /\ FLt(FAbs(z), FInt(6))
(* two isotropic sites without fields or drive: the energy of every trajectory is conserved *)
Bare(e) == e.kind = "A" /\ Two(e) /\ e.c.ssize = 2 /\ e.c.drive = "none" /\ e.c.lambda = One
           /\ NormF(e.c.hfield) = Zero /\ NormF(e.c.hs) = Zero
TrajOk(e) == Bare(e) /\ FLt(FInt(4), e.b)
             => GammaOk(FMul(FMul(FInt(2 * e.c.runs), e.b), FAdd(e.target, One)), e.c.runs)
(* in resonance: a cold, isotropic pair is one spin, which in the drive's frame turns about the drive alone, away from the   *)
(* static field and back; only the bond energy is left of the mean                                                          *)
Resonant(e) == e.kind = "A" /\ Two(e) /\ e.c.ssize = 2 /\ e.c.drive = "xyplane" /\ e.c.lambda = One /\ NormF(e.c.hs) = Zero
               /\ FLe(NormF(VMinus(e.c.hfield, << Zero, Zero, Om(e) >>)), F("1e-9")) /\ FLe(FInt(20), e.b) /\ FLe(FMul(FInt(12), e.c.dt), e.tau)
DrivenOk(e) == Resonant(e) => FLe(FAbs(FAdd(e.target, One)), F("0.35"))

Eval(e) ==
  LET n == Len(e.steps)
      lay == Len(e.rec) = 1 /\ Len(e.rec[1]) = Width(e) /\ Nums(e.rec[1])
      x == e.rec[1]
  IN  Chk("program-ends", ~e.hung) \cup Chk("exit-code", e.hung \/ e.rc = 0)
      \cup Chk("old-contents-kept", e.kept) \cup Chk("one-record-appended", lay)
      \cup (IF n = 0 THEN {} ELSE
            Chk("starts-with-the-whole-bracket", Start(e))
            \cup Chk("midpoint", \A i \in 1..n : MidOk(e.steps[i]))
            \cup Chk("keeps-the-half-with-the-target", \A i \in 1..(n - 1) : StepOk(e, i))
            \cup Chk("until-narrow", FLe(FSub(Hi(Fin(e)), Lo(Fin(e))), F("0.001")))
            \cup Chk("estimate-of-the-own-ensemble",
                     /\ Est(e, Lo(e.steps[1]), e.steps[1][4]) /\ Est(e, Hi(e.steps[1]), e.steps[1][6])
                     /\ \A i \in 1..n : Est(e, Mi(e.steps[i]), e.steps[i][5]))
            \cup Chk("midpoint-reported", ~lay \/ Beta(e) = Mi(Fin(e))))
      \cup (IF ~lay THEN {} ELSE
            Chk("period", x[1] = e.tau)
            \cup Chk("target-or-initial-beta", IF e.kind \in {"D", "A"} THEN x[2] = e.b ELSE x[2] = e.target)
            \cup Chk("configured-beta", e.kind # "H" \/ x[3] = e.b)
            \cup Chk("temperature-with-the-target-energy", e.kind = "H" \/ FoundOk(e))
            \cup Chk("means-of-the-ensemble", e.kind = "D" \/ ObsOk(e))
            \cup (IF e.kind # "A" THEN {} ELSE
                  Chk("target-is-the-trajectories-mean", x[8] = e.target) \cup Chk("trajectories-at-the-initial-temperature", TrajOk(e))
                  \cup Chk("trajectories-are-driven", DrivenOk(e))))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {FVals(Trace[l])} : \E bad \in {Eval(e)} :
     IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_l
=============================================================================
