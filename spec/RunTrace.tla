------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Validates the log files the real program writes, record by record: when *)
(* records are due, that each describes one state, and that consecutive    *)
(* ones are related by the documented number of time steps.                *)
(*                                                                         *)
(* The state is reconstructed from the records where they determine it:    *)
(*   full2  two sites, both driven: a record holds the whole state         *)
(*   full4  four equal driven sites: the even sites enter only by their    *)
(*          sum, represented by two half-sums (precession is linear)       *)
(*   sub3   four sites, three driven: the fourth is found from its z       *)
(*          component and the energy, up to a sign; both candidates are    *)
(*          followed until a record refutes one                            *)
(*   plain  anything else: clock, lengths and conservation laws            *)
(***************************************************************************)
EXTENDS Real, Json, IOUtils, FiniteSets

Tol == "1e-6"
Nums(x) == \A i \in 1..Len(x) : FIsNum(x[i])
Sub3(x, i) == << x[i], x[i+1], x[i+2] >>
VMul(s, v) == [k \in 1..3 |-> FMul(s, v[k])]
VPlus(a, b) == [k \in 1..3 |-> FAdd(a[k], b[k])]
VMinus(a, b) == [k \in 1..3 |-> FSub(a[k], b[k])]
Had(a, b) == [k \in 1..3 |-> FMul(a[k], b[k])]

(* the chain a run works on ---------------------------------------------- *)
Fresh(p) ==
  LET L == p.c.hsize IN
  [S |-> <<>>, J |-> [n \in 1..L |-> << FInt(1), FInt(1), p.c.lambda >>],
   H |-> [n \in 1..L |-> IF n <= p.c.ssize THEN VPlus(p.c.hfield, p.c.hs) ELSE p.c.hfield],
   t |-> FNeg(p.c.trel), c |-> p.c]

(* when the next record is due: <<time, steps>>, or <<>> if the run is over *)
Hit(p, u) == p.c.strob = "false" \/ FRound(FDiv(u, p.c.dt)) % FRound(FDiv(p.c.tau, p.c.dt)) = 0
RECURSIVE Due(_, _, _)
Due(p, t, n) ==
  IF ~FLt(t, p.c.t) THEN <<>>
  ELSE LET u == FAdd(t, p.c.dt) IN IF Hit(p, u) THEN << u, n + 1 >> ELSE Due(p, u, n + 1)
RECURSIVE Evolve(_, _, _)
Evolve(p, ch, n) ==
  IF n = 0 THEN ch
  ELSE LET nx == IF p.mode = "response" /\ ~FLt(ch.t, FInt(0)) THEN Ch!UpdateNoField(ch) ELSE Ch!Update(ch)
       IN  Evolve(p, TLCEval(nx), n - 1)

(* states a record allows ------------------------------------------------ *)
(* unit vectors with given z component and a.s = w *)
Solutions(z, a, w) ==
  LET r2 == FSub(FInt(1), FMul(z, z))                  \* x^2 + y^2
      q  == FSub(w, FMul(a[3], z))                     \* a1 x + a2 y = q
      n2 == FAdd(FMul(a[1], a[1]), FMul(a[2], a[2]))
      d0 == FSub(FMul(r2, n2), FMul(q, q))
      d  == FSqrt(IF FLt(d0, FInt(0)) THEN FInt(0) ELSE d0)
      sol(sg) == << FDiv(FSub(FMul(a[1], q), FMul(sg, FMul(a[2], d))), n2),
                    FDiv(FAdd(FMul(a[2], q), FMul(sg, FMul(a[1], d))), n2), z >>
  IN  { sol(FInt(1)), sol(FInt(-1)) }
Half4(m4, a, b) == VMul(F("0.5"), VMinus(m4, VPlus(a, b)))
States(p, ch, x) ==
  LET a == Sub3(x, 8)  b == Sub3(x, 11)  m == VMul(FInt(p.c.ssize), Sub3(x, 4)) IN
  CASE p.what = "full2" -> { << a, b >> }
    [] p.what = "full4" -> LET h == Half4(m, a, b) IN { << h, a, h, b >> }
    [] p.what = "sub3"  ->
         LET s2 == VMinus(m, VPlus(a, b))
             z  == FSub(FMul(FInt(4), x[7]), m[3])
             d  == Ch!Drive(p.c, x[1])
             f(n) == VPlus(ch.H[n], d)
             rest == FAdd(FAdd(DotF(a, f(1)), DotF(s2, f(2))), DotF(b, f(3)))
             bond == FAdd(Ch!Dot3(a, ch.J[1], s2), Ch!Dot3(s2, ch.J[2], b))
             (* energy sum = -bond - s.(J b + J a - H4) + rest *)
             av == VMinus(VPlus(Had(ch.J[3], b), Had(ch.J[4], a)), ch.H[4])
             w  == FSub(FSub(rest, bond), FMul(FInt(4), x[2]))
         IN  { << a, s2, b, s >> : s \in Solutions(z, av, w) }
    [] OTHER -> {}
(* sites a record shows directly *)
Shown(p) == CASE p.what = "full2" -> {1, 2} [] p.what = "full4" -> {1, 2, 3, 4} [] p.what = "sub3" -> {1, 2, 3}
(* with half-sums the subsystem's open energy (column 3) is not determined *)
Line(p, ch, x, tol) == LET w == Ch!LogLine(ch) IN
  Len(x) = 13 /\ \A i \in 1..13 : (i = 3 /\ p.what = "full4") \/ Near(x[i], w[i], IF i \in {1} \cup (8..13) THEN "1e-9" ELSE tol)
MatchS(p, S, T) == \A n \in Shown(p) : NearV(S[n], T[n], Tol)

(* conservation laws for the rest ---------------------------------------- *)
NoH(ch) == \A n \in 1..Len(ch.H) : NearV(ch.H[n], Ch!Vec0, "1e-14")
NoDrive(p) == p.c.drive = "none"
Undriven(p) == p.c.drive \in {"none", "staticfield"}
Conserved(p, ch) ==
  CASE p.mode = "langevin" -> NoDrive(p) /\ NoH(ch) /\ p.c.gamma = FInt(0)
    [] p.mode = "response" -> NoDrive(p) /\ NoH(ch)
    [] OTHER -> Undriven(p)

(* events ---------------------------------------------------------------- *)
(* head: a run starts; t is the clock, k the number of records so far      *)
EvHead(st, e) ==
  LET p == [mode |-> e.mode, what |-> e.what, c |-> e.c] IN
  OUT([p |-> p, ch |-> Fresh(p), t |-> FNeg(p.c.trel), k |-> 0, cands |-> {}, e0 |-> <<>>, grp |-> <<>>, whole |-> e.what # "full4",
       head |-> FALSE], {})
FirstT(p) == FNeg(p.c.trel)
(* after the initial record the response run restarts its clock at -t *)
ClockAfter(p, t, k) == IF k = 0 /\ p.mode = "response" THEN FNeg(p.c.t) ELSE t
At(ch, S, t) == [ch EXCEPT !.S = S, !.t = t]

First(st, x) ==
  LET p == st.p
      S == { s \in States(p, st.ch, x) : TRUE }
      ok == { s \in S : Line(p, At(st.ch, s, x[1]), x, Tol) /\ (p.what = "full4" \/ AllUnit(s) \/ p.what = "sub3") }
      t1 == ClockAfter(p, x[1], 0)
  IN  OUT([st EXCEPT !.k = 1, !.t = t1, !.cands = { At(st.ch, s, t1) : s \in ok }, !.e0 = x[2]],
          Chk("starts-at-minus-trel", Near(x[1], FirstT(p), "1e-12"))
          \cup Chk("record-consistent", p.what = "plain" \/ ok # {}))
NextRec(st, x) ==
  LET p == st.p  due == Due(p, st.t, 0) IN
  IF due = <<>> THEN OUT([st EXCEPT !.k = @ + 1], {"record-after-the-end"})
  ELSE
  LET ev == TLCEval({ Evolve(p, c, due[2]) : c \in st.cands })
      seen == States(p, st.ch, x)
      (* the state shown by the record, completed from the prediction *)
      join(c, s) == IF p.what = "sub3" THEN << s[1], s[2], s[3], c.S[4] >> ELSE s
      some == CHOOSE s \in seen : TRUE
      good == IF p.what = "plain" THEN {}
              ELSE { c \in ev : MatchS(p, c.S, some) /\ Line(p, At(c, join(c, some), x[1]), x, Tol) }
  IN  OUT([st EXCEPT !.k = @ + 1, !.t = x[1], !.e0 = x[2],
             !.cands = IF p.what = "plain" THEN {}
                       ELSE IF good # {} THEN { At(c, join(c, some), x[1]) : c \in good }
                       ELSE { At(st.ch, s, x[1]) : s \in seen }],
          Chk("record-time", Near(x[1], due[1], "1e-9"))
          \cup Chk("related-by-the-time-step", p.what = "plain" \/ ~Near(x[1], due[1], "1e-9") \/ good # {})
          \cup Chk("energy-conserved", ~Conserved(p, st.ch) \/ Near(x[2], st.e0, "1e-8")))
Units(x) == IsUnit(Sub3(x, 8)) /\ IsUnit(Sub3(x, 11))

(* Langevin records: time, energy twice, magnetisations, boundary flux *)
LBound(p, x) ==
  LET M == VMul(FInt(p.c.ssize), Sub3(x, 4))
      drv == FDiv(FMul(TwoPi, DotF(Ch!DriveP(p.c, x[1]), M)), p.c.tau)
      a == FNeg(x[2])                                   \* two sites, isotropic, no fields: S1.S2
      pp == FSub(FInt(1), FMul(a, a))
      two == p.c.hsize = 2 /\ NoDrive(p) /\ p.c.lambda = FInt(1) /\ NoH(Fresh(p))
  IN  IF p.c.gamma = FInt(0) THEN Near(x[8], drv, "1e-8")
      ELSE ~two \/ Near(x[8], FSub(FDiv(FMul(FMul(FInt(2), p.c.gamma), FMul(FInt(2), a)), p.c.beta),
                                   FMul(p.c.gamma, FMul(FInt(2), pp))), "1e-8")
LSum(p, x) ==
  LET M == VMul(FInt(2), Sub3(x, 4)) IN
  ~(p.c.hsize = 2 /\ NoDrive(p) /\ p.c.lambda = FInt(1) /\ NoH(Fresh(p)))
  \/ Near(DotF(M, M), FSub(FInt(2), FMul(FInt(2), x[2])), "1e-8")
LLine(st, x) ==
  LET p == st.p IN
  IF ~st.head THEN OUT([st EXCEPT !.head = TRUE], Chk("header-line", Len(x) > 0 /\ ~FIsNum(x[1])))
  ELSE IF Len(x) # 8 \/ ~Nums(x) THEN OUT(st, {"record-layout"})
  ELSE
  LET first == st.k = 0
      due == IF first THEN << FirstT(p), 0 >> ELSE Due(p, st.t, 0)
  IN  IF due = <<>> THEN OUT([st EXCEPT !.k = @ + 1], {"record-after-the-end"})
      ELSE OUT([st EXCEPT !.k = @ + 1, !.t = x[1], !.e0 = x[2]],
             Chk("record-time", Near(x[1], due[1], "1e-9"))
             \cup Chk("energy-twice", x[2] = x[3])
             \cup Chk("magnetisation-of-the-whole", Near(x[6], x[7], "1e-12"))
             \cup Chk("boundary-flux", LBound(p, x)) \cup Chk("record-consistent", LSum(p, x))
             \cup Chk("energy-conserved", first \/ ~Conserved(p, st.ch) \/ Near(x[2], st.e0, "1e-8"))
             \cup Chk("bath-acts", first \/ p.c.gamma = FInt(0) \/ p.c.hsize # 2 \/ x[2] # st.e0))

(* extended records: one line per interior driven site, then a blank one *)
Blank(x) == Len(x) = 1 /\ ~FIsNum(x[1])
ExtGroup(st) ==
  LET p == st.p  due == Due(p, st.t, 0)  g == st.grp  nx == [st EXCEPT !.grp = <<>>, !.k = @ + 1] IN
  IF due = <<>> THEN OUT(nx, {"record-after-the-end"})
  ELSE
  LET sites == Ch!ExtSites([c |-> p.c, S |-> [n \in 1..p.c.hsize |-> 0]])
      k == Cardinality(sites)
      lay == Len(g) = k /\ \A i \in 1..k : Len(g[i]) = 6 /\ Nums(g[i]) /\ g[i][2] = FInt(i)
  IN  IF ~lay THEN OUT([nx EXCEPT !.t = due[1]], {"extended-record-layout"})
      ELSE IF p.what = "plain"
      THEN OUT([nx EXCEPT !.t = due[1]],
               Chk("record-time", \A i \in 1..k : Near(g[i][1], due[1], "1e-9"))
               \cup Chk("unit", \A i \in 1..k : IsUnit(Sub3(g[i], 4))))
      ELSE
      LET ev == TLCEval({ Evolve(p, c, due[2]) : c \in st.cands })
          sp(i) == Sub3(g[i], 4)                         \* spin of site i + 1
          (* with four equal sites the first group separates the half-sums *)
          fin(c) == IF st.whole THEN c
                    ELSE At(c, << VMinus(VPlus(c.S[1], c.S[3]), sp(2)), c.S[2], sp(2), c.S[4] >>, c.t)
          all == TLCEval({ fin(c) : c \in ev })
          good == { c \in all : \A i \in 1..k :
                      LET w == Ch!ExtLine(c, i + 1) IN
                      /\ \A j \in 2..6 : Near(g[i][j], w[j], Tol)
                      /\ Near(g[i][1], c.t, "1e-9") }
          unit == \A c \in all : \A n \in 1..Len(c.S) : FLt(FAbs(FSub(NormF(c.S[n]), FInt(1))), F(Tol))
      IN  OUT([nx EXCEPT !.t = due[1], !.whole = TRUE, !.cands = IF good # {} THEN good ELSE all],
              Chk("record-time", \A i \in 1..k : Near(g[i][1], due[1], "1e-9"))
              \cup Chk("related-by-the-time-step", good # {}) \cup Chk("unit", unit))

EvLine(st, e) ==
  LET x == e.x IN
  IF st.p.mode = "langevin" THEN LLine(st, x)
  ELSE IF st.p.mode = "ext" /\ st.k > 0
       THEN IF Blank(x) THEN ExtGroup(st) ELSE OUT([st EXCEPT !.grp = Append(@, x)], Chk("extended-record-layout", Nums(x)))
  ELSE IF Len(x) # 13 \/ ~Nums(x) THEN OUT([st EXCEPT !.k = @ + 1], {"record-layout"})
  ELSE LET r == IF st.k = 0 THEN First(st, x)
                ELSE IF st.p.mode = "scan" THEN OUT(st, {"scan-logs-the-initial-state-only"}) ELSE NextRec(st, x)
       IN  OUT(r.st, r.bad \cup Chk("unit", Units(x)))

(* the record of a single-shot scan: period, time, energies, magnetisation *)
EvEvt(st, e) ==
  LET p == st.p  x == e.x
      n0 == FRound(FDiv(FSub(p.c.t, FirstT(p)), p.c.dt))
      over == Near(x[2], FAdd(p.c.t, p.c.dt), "1e-9")      \* t may be reached one rounding error late
      n  == IF over THEN n0 + 1 ELSE n0
      ev == { Evolve(p, c, n) : c \in st.cands }
      good == { c \in ev : LET m == Ch!Mag(c) IN
                  /\ Near(x[3], Ch!TotalE(c), Tol) /\ Near(x[4], Ch!SystemE(c), Tol)
                  /\ \A k \in 1..3 : Near(x[4 + k], FDiv(m[k], FInt(p.c.ssize)), Tol) }
  IN  IF Len(x) # 7 \/ ~Nums(x) THEN OUT(st, {"record-layout"})
      ELSE OUT(st, Chk("period", x[1] = p.c.tau)
             \cup Chk("final-time", Near(x[2], p.c.t, "1e-9") \/ over)
             \cup Chk("related-by-the-time-step", p.what = "plain" \/ good # {}))

EvDone(st, e) ==
  OUT(st, Chk("missing-records", IF st.p.mode = "scan" THEN st.k = 1 ELSE st.k > 0 /\ Due(st.p, st.t, 0) = <<>>)
      \cup Chk("whole-records", st.grp = <<>>))

(* temperature of the initial states: at low temperature the energy above  *)
(* the ground state is Gamma-distributed (two modes per two sites)         *)
EvCold(st, e) ==
  LET H == VPlus(e.c.hfield, e.c.hs)
      ch(S) == [S |-> S, J |-> << <<FInt(1),FInt(1),FInt(1)>>, <<FInt(1),FInt(1),FInt(1)>> >>, H |-> << H, H >>,
                t |-> FInt(0), c |-> e.c]
      g == FSub(FInt(-2), FMul(FInt(2), NormF(H)))
      x == FSum([i \in 1..Len(e.S) |-> FMul(e.b, FSub(Ch!StaticSum(ch(e.S[i])), g))])
  IN  OUT(st, Chk("initial-temperature", IF e.cold THEN FLt(F("0.6"), x) /\ FLt(x, F("60")) ELSE
              FLt(FMul(F("0.85"), FMul(FInt(Len(e.S)), g)), FDiv(FAdd(x, FMul(e.b, FMul(FInt(Len(e.S)), g))), e.b))))

(* a Langevin pair with an easy axis: the energy (both bonds of the closed  *)
(* pair) above -2 lambda is Gamma-distributed with shape 2                 *)
EvEasy(st, e) ==
  LET x == FSum([i \in 1..Len(e.E) |-> FMul(FMul(FInt(2), e.b), FAdd(e.E[i], e.c.lambda))])
  IN  OUT(st, Chk("initial-temperature", FLt(F("0.6"), x) /\ FLt(x, F("60"))))

Eval(st, e) == CASE e.e = "head" -> EvHead(st, e) [] e.e = "line" -> EvLine(st, e) [] e.e = "evt" -> EvEvt(st, e)
                 [] e.e = "done" -> EvDone(st, e) [] e.e = "cold" -> EvCold(st, e) [] e.e = "easy" -> EvEasy(st, e)
                 [] e.e = "bad" -> OUT(st, {e.why})
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, state
Init == l = 1 /\ state = << >>
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {FVals(Trace[l])} : \E r \in {Eval(state, e)} :
     /\ state' = r.st
     /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(r.bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_<<l, state>>
=============================================================================
