---------------------------- MODULE ProfileTrace ----------------------------
(***************************************************************************)
(* Validates the site profiles the real program writes, under forced       *)
(* thread schedules (Profile.tla: Once, Whole, Ends), against Chain.tla:   *)
(* one line per site, means that states of the chain can have, means over  *)
(* independent samples of the right number, at low temperature around the  *)
(* ground state of each site's own field, and - for one run - states of    *)
(* successive marks related by the time step.                              *)
(***************************************************************************)
EXTENDS Real, Json, IOUtils, FiniteSets
Nums(x) == \A i \in 1..Len(x) : FIsNum(x[i])
VMul(s, v) == [k \in 1..3 |-> FMul(s, v[k])]
VPlus(a, b) == [k \in 1..3 |-> FAdd(a[k], b[k])]
VMinus(a, b) == [k \in 1..3 |-> FSub(a[k], b[k])]
Had(a, b) == [k \in 1..3 |-> FMul(a[k], b[k])]
L(e) == e.c.hsize
M(f) == [n \in 1..Len(f) |-> << f[n][3], f[n][4], f[n][5] >>]
J(c) == << FInt(1), FInt(1), c.lambda >>
H(c) == [n \in 1..c.hsize |-> IF n <= c.ssize THEN VPlus(c.hfield, c.hs) ELSE c.hfield]

LinesOk(e, f) == Len(f) = L(e) /\ \A n \in 1..Len(f) : Len(f[n]) = 5 /\ Nums(f[n]) /\ f[n][1] = FInt(n - 1)
BallOk(e, f) == LET m == M(f) IN \A n \in 1..L(e) : IF e.n = 1 THEN IsUnit(m[n]) ELSE FLe(NormF(m[n]), F("1.000000001"))
(* |mean of (a J b) - mean a J mean b| is at most the product of the       *)
(* standard deviations (|lambda| <= 1)                                     *)
BondOk(e, f) ==
  LET m == TLCEval(M(f))
      sd == TLCEval([n \in 1..L(e) |-> LET d == FSub(FInt(1), DotF(m[n], m[n])) IN
                       IF e.n = 1 \/ FLt(d, FInt(0)) THEN FInt(0) ELSE FSqrt(d)])
      p(n) == Ch!Prv(n, L(e))  q(n) == Ch!Nxt(n, L(e))
  IN  e.c.jvar # FInt(0) \/ \A n \in 1..L(e) :
        FLe(FAbs(FAdd(f[n][2], FDiv(FAdd(Ch!Dot3(m[p(n)], J(e.c), m[n]), Ch!Dot3(m[n], J(e.c), m[q(n)])), FInt(2)))),
            FAdd(FDiv(FMul(sd[n], FAdd(sd[p(n)], sd[q(n)])), FInt(2)), F("1e-8")))
(* each site has half of its two bonds, so on an even ring the energies of  *)
(* even and of odd sites have the same sum, whatever couplings and state    *)
SharedOk(e, f) ==
  LET sum(r) == FSum([i \in 1..(L(e) \div 2) |-> f[2 * i - r][2]]) IN
  L(e) % 2 = 1 \/ Near(sum(0), sum(1), "1e-8")
(* infinite temperature: n independent directions on every site            *)
HotOk(e, f) ==
  LET m == TLCEval(M(f))
      l == FInt(L(e))  n == FInt(e.n)
      q == FDiv(FMul(n, FSum([i \in 1..L(e) |-> DotF(m[i], m[i])])), l)                \* 1 on average
      v == FDiv(FMul(F("0.6666666666666667"), FSub(FInt(1), FDiv(FInt(1), n))), l)
      en == FDiv(FMul(FMul(FInt(6), n), FSum([i \in 1..L(e) |-> FMul(f[i][2], f[i][2])])), l)
      tot(k) == FSum([i \in 1..L(e) |-> m[i][k]])
  IN  /\ FLe(FAbs(FSub(q, FInt(1))), FAdd(FMul(FInt(6), FSqrt(v)), F("1e-9")))
      /\ e.c.lambda # FInt(1) \/ e.c.jvar # FInt(0) \/ FLe(FAbs(FSub(en, FInt(1))), FDiv(FInt(12), FSqrt(l)))
      /\ \A k \in 1..3 : FLe(FMul(tot(k), tot(k)), FDiv(FMul(FInt(12), l), n))
(* low temperature: every spin along its own field                         *)
ColdOk(e, f) ==
  LET m == TLCEval(M(f))  h == H(e.c)
      w(n) == VMinus(VPlus(Had(J(e.c), m[Ch!Prv(n, L(e))]), Had(J(e.c), m[Ch!Nxt(n, L(e))])), h[n])
  IN  \A n \in 1..L(e) : \E x \in {w(n)} :
        FLe(NormF(VMinus(m[n], Unit(x))), FDiv(FInt(10), FSqrt(FMul(e.b, NormF(x)))))
(* cold start in hfield + hs, then an extra constant field hs: two equal   *)
(* isotropic spins turn together                                           *)
TurnOk(e, f, k) ==
  LET h == H(e.c)[1]
      s == VMul(FInt(-1), Unit(h))
      t == FAdd(FMul(FInt(500 * k), e.c.tau), e.c.trel)
      want == RotF(s, VMul(FInt(-1), VPlus(h, e.c.hs)), t)
  IN  \A n \in 1..L(e) : FLe(NormF(VMinus(M(f)[n], want)), FDiv(FInt(20), FSqrt(FMul(e.b, NormF(h)))))
(* the energy is conserved, and linear in the means *)
Sum1(e, f) == LET m == M(f) h == H(e.c) IN FSum([n \in 1..L(e) |-> FAdd(f[n][2], DotF(h[n], m[n]))])
Consts(e) == \A k \in 2..Len(e.files) :
  e.c.drive # "none" \/ e.c.hvar # FInt(0) \/ Near(Sum1(e, e.files[k]), Sum1(e, e.files[1]), "1e-7")
(* one run: mark k follows from mark k-1                                   *)
Evolve(ch, n) == FoldLeft(LAMBDA c, i : TLCEval(Ch!Update(c)), ch, [i \in 1..n |-> i])
(* steps since -trel at which mark k can be taken: within one step of it    *)
At(e, k) ==
  LET u == FDiv(FAdd(FMul(FInt(500 * k), e.c.tau), e.c.trel), e.c.dt)   r == FRound(u) IN
  { j \in (r - 1)..(r + 1) : FLt(FAbs(FSub(FInt(j), u)), F("0.999999")) }
T(e, j) == FSub(FMul(FInt(j), e.c.dt), e.c.trel)
Follows(e, k) ==
  LET want == M(e.files[k]) IN
  \E i \in At(e, k - 1) : \E j \in At(e, k) :
    \E ch \in { Evolve([S |-> M(e.files[k - 1]), J |-> [n \in 1..L(e) |-> J(e.c)], H |-> H(e.c), t |-> T(e, i), c |-> e.c], j - i) } :
      \A n \in 1..L(e) : NearV(want[n], ch.S[n], "1e-6")

Eval(e) ==
  LET lines == e.whole /\ \A k \in 1..Len(e.files) : LinesOk(e, e.files[k])
      all(Op(_, _)) == \A k \in 1..Len(e.files) : Op(e, e.files[k])
  IN  Chk("program-ends", ~e.hung) \cup Chk("exit-code", e.hung \/ e.rc = 0)
      \cup (IF e.hung THEN {} ELSE
            Chk("all-files-present", Len(e.files) = (IF e.kind = "mc" THEN 1 ELSE 8))
            \cup Chk("one-line-per-site-in-order", lines))
      \cup (IF e.hung \/ ~lines THEN {} ELSE
            Chk("lengths", all(BallOk)) \cup Chk("bond-energies", all(BondOk))
            \cup Chk("bonds-shared-by-their-two-sites", all(SharedOk))
            \cup Chk("one-sample-each", ~e.hot \/ all(HotOk))
            \cup Chk("own-field-and-temperature", ~e.cold \/ all(ColdOk))
            \cup (IF e.kind = "mc" THEN {} ELSE
                  Chk("conserved", Consts(e))
                  \cup Chk("after-that-many-periods", ~e.turn \/ \A k \in 1..Len(e.files) : TurnOk(e, e.files[k], k))
                  \cup Chk("marks-differ", e.cold \/ \A i, j \in 1..Len(e.files) : i < j => M(e.files[i]) # M(e.files[j]))
                  \cup Chk("marks-related-by-the-time-step", ~e.evolve \/ \A k \in 2..Len(e.files) : Follows(e, k))))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {FVals(Trace[l])} : \E bad \in {Eval(e)} :
     IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_l
=============================================================================
