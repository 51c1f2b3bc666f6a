------------------------------ MODULE LibTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded library executions against Chain.tla in    *)
(* IEEE doubles.  The trace is a sequence of events; each must be a step   *)
(* the specification allows from the current specification state.  Where   *)
(* it is not, the names of the violated clauses are printed, the           *)
(* specification state is resynchronised with the recorded one, and        *)
(* checking continues.  A trace is accepted iff nothing is rejected.       *)
(***************************************************************************)
EXTENDS Real, Stats, Json, IOUtils, FiniteSets

-----------------------------------------------------------------------------
(* C01 *)
EvSpins(st, e) == OUT(st, Chk("unit", AllUnit(e.S)))
EvDev(st, e)   == OUT(st, Chk("unit-long", e.fin /\ FLt(e.dev, F("1e-9"))))

(* C02 *)
EvRot(st, e) ==
  LET want == RotF(e.s, e.f, e.dt) IN
  OUT(st, Chk("precession", NearV(e.out, want, "1e-9"))
     \cup Chk("component-kept", LET n == NormF(e.f) IN n = FInt(0) \/
             Near(FDiv(DotF(e.out, e.f), n), FDiv(DotF(e.s, e.f), n), "1e-9"))
     \cup Chk("undone", NearV(e.back, e.s, "1e-9")))
Sphere(th, ph) == << FMul(FCos(th), FSin(ph)), FMul(FSin(th), FSin(ph)), FCos(ph) >>
EvAng(st, e) ==
  OUT(st, Chk("angles-round-trip", NearV(Sphere(e.th, e.ph), e.s, "1e-7"))
     \cup Chk("from-angles", NearV(e.from, Sphere(e.th, e.ph), "1e-12"))
     \cup Chk("set-angles", NearV(e.set, Sphere(e.th, e.ph), "1e-12"))
     \cup Chk("polar-range", FLe(FInt(0), e.ph) /\ FLe(e.ph, Pi))
     \cup Chk("xyz", e.xyz = e.s))
EvFrm(st, e) == OUT(st, Chk("from-angles", NearV(e.out, Sphere(e.th, e.ph), "1e-12")))
EvXyz(st, e) == OUT(st, Chk("normalises", NearV(e.out, Unit(e.v), "1e-12")))
GS(a, b) == LET q == FDiv(DotF(a, b), DotF(a, a)) IN Unit([k \in 1..3 |-> FSub(b[k], FMul(q, a[k]))])
EvGs(st, e) == OUT(st, Chk("gram-schmidt", NearV(e.out, GS(e.a, e.b), "1e-8")))
EvRperp(st, e) ==
  LET o == Sphere(e.th, e.ph)
      want == Turn(o, GS(o, e.d), e.ang)
  IN  OUT(st, Chk("rot-perp", NearV(Sphere(e.oth, e.oph), want, "1e-6")))
EvEq(st, e) ==
  LET d(k) == FAbs(FSub(e.a[k], e.b[k]))
      edge == \E k \in 1..3 : FLt(FAbs(FSub(d(k), F("0.001"))), F("1e-12"))
      want == \A k \in 1..3 : FLt(d(k), F("0.001"))
  IN  OUT(st, Chk("spin-equality", edge \/ (e.r = want /\ e.rev = want)))

(* C03, C05 *)
EvSet(st, e) == OUT([st EXCEPT !.ch = e.ch], {})
Stepped(st, e, want) ==
  OUT([st EXCEPT !.ch.S = e.S, !.ch.t = e.t],
      Chk("splitting", NearS(e.S, want.S, "1e-9"))
      \cup Chk("clock", Near(e.t, want.t, "1e-13")) \cup Chk("frame", e.same))
EvUpd(st, e)   == Stepped(st, e, Ch!Update(st.ch))
EvUpdNf(st, e) == Stepped(st, e, Ch!UpdateNoField(st.ch))
EvLupd0(st, e) == Stepped(st, e, Ch!LUpdate(st.ch, Ch!Vec0, Ch!Vec0))

(* C06 (and the energies of C05) *)
EvObs(st, e) == LET c == st.ch IN
  OUT(st, Chk("total-energy", Near(e.te, Ch!TotalE(c), "1e-10"))
     \cup Chk("total-energy2", Near(e.te2, Ch!TotalE(c), "1e-10"))
     \cup Chk("system-energy", Near(e.se, Ch!SystemE(c), "1e-10"))
     \cup Chk("mc-total-energy", Near(e.mct, Ch!McTotalE(c), "1e-10"))
     \cup Chk("mc-system-energy", Near(e.mcs, Ch!McSystemE(c), "1e-10"))
     \cup Chk("magnetisation", NearV(e.m, Ch!Mag(c), "1e-10"))
     \cup Chk("total-magnetisation", NearV(e.mt, Ch!MagTot(c), "1e-10"))
     \cup Chk("observing-changes-nothing", e.same))
EvLobs(st, e) == LET c == st.ch IN
  OUT(st, Chk("l-total-energy", Near(e.te, Ch!TotalE(c), "1e-10"))
     \cup Chk("l-total-energy2", Near(e.te2, Ch!TotalE(c), "1e-10"))
     \cup Chk("l-system-energy", Near(e.se, Ch!SystemE(c), "1e-10"))
     \cup Chk("l-magnetisation", NearV(e.m, Ch!Mag(c), "1e-10"))
     \cup Chk("l-total-magnetisation", NearV(e.mt, Ch!MagTot(c), "1e-10"))
     \cup Chk("l-boundary-flux", Near(e.bt, Ch!LBoundary(c, TwoPi), "1e-9"))
     \cup Chk("observing-changes-nothing", e.same))

(* without noise the flux is the rate at which the open chain's energy     *)
(* changes: what the end sites lose to the bath and what the drive puts in *)
EvLbal(st, e) == LET c0 == e.ch  c1 == [e.ch EXCEPT !.S = e.S, !.t = e.t]
                     rate == FDiv(FSub(Ch!OpenSum(c1), Ch!OpenSum(c0)), c0.c.dt)
                     mean == FDiv(FAdd(e.f0, e.f1), FInt(2))
  IN  OUT(st, Chk("flux-is-the-energy-balance",
                  FLt(FAbs(FSub(rate, mean)), FMul(F("1e-3"), FAdd(FInt(1), FAbs(rate))))))

(* C04 *)
EvSeg(st, e) ==
  LET c1 == [st.ch EXCEPT !.S = e.S, !.t = e.t] IN
  OUT([st EXCEPT !.ch = c1],
      Chk("start-energy", Near(e.e0, Ch!TotalE(st.ch), "1e-9"))
      \cup Chk("energy-conserved", Near(e.e0, e.e1, "1e-9") /\ Near(e.f0, e.f1, "1e-9"))
      \cup Chk("spec-energy-conserved", Near(Ch!TotalE(st.ch), Ch!TotalE(c1), "1e-9"))
      \cup Chk("unit", AllUnit(e.S))
      \cup Chk("clock", Near(e.t, FAdd(st.ch.t, FMul(FInt(e.n), st.ch.c.dt)), "1e-9")))
EvFrozen(st, e) ==
  LET d  == Ch!MidDrive(st.ch)
      c1 == [st.ch EXCEPT !.S = e.S, !.t = e.t]
  IN  OUT([st EXCEPT !.ch = c1],
          Chk("frozen-energy-conserved", Near(Ch!FrozenSum(st.ch, d), Ch!FrozenSum(c1, d), "1e-10")))
EvRev(st, e) ==
  OUT(st, Chk("reversible", NearS(e.S, st.ch.S, "1e-6"))
     \cup Chk("clock-reversible", Near(e.t, st.ch.t, "1e-9"))
     \cup Chk("moved", e.n < 1 \/ TRUE))

(* C07, C08: Monte-Carlo moves *)
Om(ch) == FDiv(TwoPi, ch.c.tau)
Energy(kind, ch) ==
  CASE kind = "met"     -> Ch!StaticSum(ch)
    [] kind = "lmet"    -> Ch!Plain(ch)
    [] kind = "rot"     -> Ch!HRot(ch, Om(ch))
    [] kind = "maglab"  -> Ch!HMaglab(ch, Om(ch))
    [] kind = "magnus"  -> Ch!HMagnus(ch, Om(ch))
    [] kind = "lmagnus" -> Ch!HMagnus(ch, Om(ch))
    [] kind = "full"    -> Ch!HFull(ch, Om(ch))
(* one item: the state, the state after acceptance, whether it is accepted at zero temperature, *)
(* and the inverse temperature at which the same random numbers turn from acceptance to rejection *)
Changed(it) == { n \in 1..Len(it.post) : it.post[n] # it.ch.S[n] }
EvMvs(st, e) ==
  LET n   == Len(e.it)
      C   == TLCEval([i \in 1..n |-> Changed(e.it[i])])
      one == \A i \in 1..n : Len(e.it[i].post) = e.L /\ Cardinality(C[i]) = 1
  IN  IF n = 0 THEN OUT(st, {}) ELSE IF ~one THEN OUT(st, {"one-spin"}) ELSE
  LET idx(i) == CHOOSE x \in C[i] : TRUE
      new(i) == e.it[i].post[idx(i)]
      dE == TLCEval([i \in 1..n |->
               FSub(Energy(e.kind, [e.it[i].ch EXCEPT !.S = e.it[i].post]), Energy(e.kind, e.it[i].ch))])
      up == { i \in 1..n : ~e.it[i].acc /\ FLt(F("1e-5"), dE[i]) }
      lnu(i) == FMul(e.it[i].bc, dE[i])
      first == CHOOSE i \in up : \A j \in up : i <= j
  IN  OUT(IF up = {} THEN st
          ELSE [st EXCEPT !.u = Append(@, FExp(FNeg(lnu(first)))),
                          !.w = Append(@, << FDiv(FAdd(new(1)[3], FInt(1)), FInt(2)),
                                             FAdd(F("0.5"), FDiv(FAtan2(new(1)[2], new(1)[1]), TwoPi)),
                                             FDiv(FSub(FInt(idx(1)), F("0.5")), FInt(e.L)) >>)],
          Chk("unit", \A i \in 1..n : IsUnit(new(i)))
          \cup Chk("proposal-ignores-state", \A i \in 1..n : idx(i) = idx(1) /\ new(i) = new(1))
          \cup Chk("downhill-accepted", \A i \in 1..n : FLt(dE[i], F("-1e-9")) => e.it[i].acc)
          \cup Chk("uphill-refused-when-cold", \A i \in 1..n : FLt(F("1e-9"), dE[i]) => ~e.it[i].acc)
          \cup Chk("boltzmann-factor", \A i \in up : Near(lnu(i), lnu(first), "1e-6"))
          \cup Chk("frame", \A i \in 1..n : e.it[i].same))
EvMvend(st, e) ==
  LET col(k) == TLCEval([i \in 1..Len(st.w) |-> st.w[i][k]])
      fold(v) == TLCEval([i \in 1..Len(v) |-> FAbs(FSub(FMul(FInt(2), v[i]), FInt(1)))])
  IN
  OUT([st EXCEPT !.u = <<>>, !.w = <<>>],
      Chk("acceptance-independent-of-proposal", \A k \in 1..3 : Uncorr(st.u, col(k)) /\ Uncorr(st.u, fold(col(k))))
      \cup Chk("acceptance-probability", Uniform(st.u)) \cup Chk("acceptance-independent", Lag(st.u))
      \cup Chk("enough-samples", Len(st.u) >= 60))
EvProps(st, e) ==
  LET n == Len(e.idx)
      z == TLCEval([i \in 1..n |-> FDiv(FAdd(e.dir[i][3], FInt(1)), FInt(2))])
      p == TLCEval([i \in 1..n |-> FAdd(F("0.5"), FDiv(FAtan2(e.dir[i][2], e.dir[i][1]), TwoPi))])
  IN  OUT(st, Chk("one-spin", e.one)
         \cup Chk("site-uniform", EvenCounts(e.idx, e.L) /\ PairCounts(e.idx, e.L))
         \cup Chk("direction-uniform", Uniform(z) /\ Uniform(p) /\ Uncorr(z, p) /\ Lag(z) /\ Lag(p))
         \cup Chk("unit", AllUnit(e.dir)))
(* every site of a long chain is picked, none more often than the others *)
EvSites(st, e) == OUT(st, Chk("one-spin", Len(e.idx) = e.n) \cup Chk("site-uniform", EvenCounts(e.idx, e.L)))
EvEffE(st, e) ==
  OUT(st, Chk("effective-energy", Near(e.x, FDiv(Energy(e.kind, e.ch), FInt(Len(e.ch.S))), "1e-10"))
     \cup Chk("observing-changes-nothing", e.same))

(* C09: the noise vector is read off the rotation that it alone produces *)
RotLog(a) ==
  LET v == << FSub(a[2][3], a[3][2]), FSub(a[3][1], a[1][3]), FSub(a[1][2], a[2][1]) >>
      n == NormF(v)
      c == FDiv(FSub(FAdd(FAdd(a[1][1], a[2][2]), a[3][3]), FInt(1)), FInt(2))
      th == FAtan2(FDiv(n, FInt(2)), c)
  IN  IF n = FInt(0) THEN <<FInt(0), FInt(0), FInt(0)>>
      ELSE [k \in 1..3 |-> FMul(th, FDiv(v[k], n))]
Sigma(c) == FSqrt(FDiv(FMul(FMul(FInt(2), c.gamma), c.dt), c.beta))
EvLup(st, e) ==
  LET xl == TLCEval(RotLog(e.a1))
      xr == TLCEval(RotLog(e.al))
      w  == Ch!LUpdate(e.ch, xl, xr)
      sg == Sigma(e.ch.c)
      det == e.ch.c.gamma = FInt(0)
      z(k) == FDiv(IF k <= 3 THEN xl[k] ELSE xr[k-3], sg)
  IN  OUT(IF det THEN st ELSE [st EXCEPT !.z = Append(@, [k \in 1..6 |-> FErf(z(k))])],
          Chk("damped-splitting", NearS(e.S, w.S, "1e-7"))
          \cup Chk("clock", Near(e.t, w.t, "1e-13"))
          \cup Chk("frame", e.same)
          \cup Chk("deterministic-without-damping", ~det \/ (NearV(xl, Ch!Vec0, "1e-9") /\ NearV(xr, Ch!Vec0, "1e-9"))))
(* end of one sequence: fresh noise in every step *)
EvLseq(st, e) ==
  LET n == Len(st.z)
      prod(k, m) == FSum([i \in 1..(n-1) |-> FMul(FSub(st.z[i][k], F("0.5")), FSub(st.z[i+1][m], F("0.5")))])
      bad == n > 30 /\ \E k, m \in 1..6 :
               FLt(FMul(F("6.0"), FDiv(FSqrt(FInt(n - 1)), F("12.0"))), FAbs(prod(k, m)))
  IN  OUT([st EXCEPT !.z = <<>>, !.zz = @ \o st.z], Chk("noise-fresh", ~bad))
EvLend(st, e) ==
  LET n == Len(st.zz)
      col(k) == TLCEval([i \in 1..n |-> st.zz[i][k]])
  IN  OUT(st, Chk("noise-gaussian", \A k \in 1..6 : Uniform(col(k)))
         \cup Chk("noise-independent", \A k, m \in 1..6 : k < m => Uncorr(col(k), col(m)))
         \cup Chk("enough-samples", n >= 200))

(* C10: construction *)
CosCdf(b, c) ==
  IF FLt(b, F("1e-12")) THEN FDiv(FAdd(c, FInt(1)), FInt(2))
  ELSE LET q == FExp(FMul(F("-2.0"), b)) IN
       FDiv(FSub(FExp(FMul(b, FSub(c, FInt(1)))), q), FSub(FInt(1), q))
Cap(x) == IF FLt(x, FInt(0)) THEN FInt(0) ELSE IF FLt(FInt(1), x) THEN FInt(1) ELSE x
(* angle of c about b relative to a, in units of a full turn *)
Dihedral(a, b, c) ==
  LET n1 == CrossF(a, b)  n2 == CrossF(b, c)
  IN  FAdd(F("0.5"), FDiv(FAtan2(DotF(CrossF(n1, n2), b), DotF(n1, n2)), TwoPi))
(* 1 - cos of the angle between unit vectors, accurately *)
Gap(a, b) == FDiv(DotF([k \in 1..3 |-> FSub(a[k], b[k])], [k \in 1..3 |-> FSub(a[k], b[k])]), FInt(2))
EvInit(st, e) ==
  LET L == e.c.hsize
      ok == Len(e.S) = L /\ Len(e.J) = L /\ Len(e.H) = L
  IN  IF ~ok THEN OUT(st, {"length"}) ELSE IF ~AllUnit(e.S) THEN OUT(st, {"unit"}) ELSE
  LET u == TLCEval([n \in 1..(L-1) |-> Cap(CosCdf(e.c.beta, FSub(FInt(1), Gap(e.S[n], e.S[n+1]))))])
      d == TLCEval([n \in 1..(L-2) |-> Dihedral(e.S[n], e.S[n+1], e.S[n+2])])
      j0 == << FInt(1), FInt(1), e.c.lambda >>
      h0(n) == [k \in 1..3 |-> IF n <= e.c.ssize THEN FAdd(e.c.hfield[k], e.c.hs[k]) ELSE e.c.hfield[k]]
      dj(k) == TLCEval([n \in 1..L |-> FErf(FDiv(FSub(e.J[n][k], j0[k]), e.c.jvar))])
      dh(k) == TLCEval([n \in 1..L |-> FErf(FDiv(FSub(e.H[n][k], h0(n)[k]), e.c.hvar))])
      jn == TLCEval([k \in 1..3 |-> dj(k)])
      hn == TLCEval([k \in 1..3 |-> dh(k)])
      exactJ == e.c.jvar = FInt(0)
      exactH == e.c.hvar = FInt(0)
  IN  OUT(st,
       Chk("cosines-gibbs", Uniform(u)) \cup Chk("cosines-independent", Lag(u))
       \cup Chk("azimuth-uniform", Uniform(d) /\ Lag(d) /\ Uncorr(d, SubSeq(u, 2, L-1)))
       \cup Chk("couplings", IF exactJ THEN \A n \in 1..L : NearV(e.J[n], j0, "1e-14")
                ELSE (\A k \in 1..3 : Uniform(jn[k]) /\ Lag(jn[k]))
                     /\ (\A k, m \in 1..3 : k < m => Uncorr(jn[k], jn[m])))
       \cup Chk("fields", IF exactH THEN \A n \in 1..L : NearV(e.H[n], h0(n), "1e-14")
                ELSE (\A k \in 1..3 : Uniform(hn[k]) /\ Lag(hn[k]))
                     /\ (\A k, m \in 1..3 : k < m => Uncorr(hn[k], hn[m])))
       \cup Chk("disorder-independent", exactJ \/ exactH \/ \A k, m \in 1..3 : Uncorr(jn[k], hn[m]))
       \cup Chk("clock", Near(e.t, FNeg(e.c.trel), "1e-14"))
       \cup Chk("configuration-kept", e.same))

(* C11 *)
EvBeta(st, e) ==
  LET q == FExp(FMul(F("-2.0"), e.b))
      g == FSub(FDiv(FInt(1), e.b), FDiv(FAdd(FInt(1), q), FSub(FInt(1), q)))
  IN  OUT(st, Chk("positive-finite", FFinite(e.b) /\ FLt(FInt(0), e.b))
         \cup Chk("inverts", Near(g, e.en, "1e-4"))
         \cup Chk("same-for-langevin", Near(e.b, e.lb, "1e-12")))

(* C12 *)
Numeric(toks) == \A i \in 1..Len(toks) : FIsNum(toks[i])
LineIs(toks, want, exact, loose) ==
  /\ Len(toks) = Len(want) /\ Numeric(toks)
  /\ \A i \in 1..Len(want) : IF i \in exact THEN toks[i] = want[i] ELSE Near(toks[i], want[i], IF i \in loose THEN "1e-12" ELSE "5e-14")
Blank(toks) == toks = <<"">>
EvLog(st, e) ==
  IF ~e.on THEN OUT(st, Chk("no-log", Len(e.lines) = 0) \cup Chk("logging-changes-nothing", e.same))
  ELSE LET n == Len(e.lines)
           sites == Ch!ExtSites(e.ch)
           ok == IF e.ext
                 THEN /\ n = Cardinality(sites) + 1
                      /\ Len(e.lines[n]) = 1 /\ ~FIsNum(e.lines[n][1]) /\ Blank(e.lines[n])
                      /\ \A i \in 1..(n-1) : LineIs(e.lines[i], Ch!ExtLine(e.ch, i + 1), {1, 2, 4, 5, 6}, {})
                 ELSE n = 1 /\ LineIs(e.lines[1], Ch!LogLine(e.ch), {1} \cup (8..13), {})
       IN  OUT(st, Chk("record", ok /\ e.nl) \cup Chk("appends", e.grown)
                   \cup Chk("logging-changes-nothing", e.same))
EvFiles(st, e) == OUT(st, Chk("own-file-only", e.got = e.want))
EvLhead(st, e) ==
  OUT(st, Chk("one-header-line", e.nl /\ Len(e.lines) = 1 /\ Len(e.lines[1]) >= 1
                                 /\ ~FIsNum(e.lines[1][1])))
EvLlog(st, e) ==
  OUT(st, Chk("record", e.nl /\ Len(e.lines) = 1 /\ LineIs(e.lines[1], Ch!LLogLine(e.ch, TwoPi), {1}, {8}))
     \cup Chk("appends", e.grown) \cup Chk("logging-changes-nothing", e.same))

(* C13 *)
EvSpec(st, e) ==
  LET L == Len(st.ch.S)  w == Ch!Spectrum(st.ch)
      tol == FMul(F("1e-10"), FInt(L * L))
  IN  OUT(st, Chk("spectrum", Len(e.x) = L /\ \A n \in 1..L : FLt(FAbs(FSub(e.x[n], w[n])), tol))
         \cup Chk("sum-rule", Near(FSum(e.x), FInt(L * L), "1e-9"))
         \cup Chk("non-negative", \A n \in 1..Len(e.x) : FLe(FInt(0), e.x[n]))
         \cup Chk("observing-changes-nothing", e.same))

-----------------------------------------------------------------------------
Eval(st, e) ==
  CASE e.e = "spins"  -> EvSpins(st, e)   [] e.e = "dev"   -> EvDev(st, e)
    [] e.e = "rot"    -> EvRot(st, e)     [] e.e = "ang"   -> EvAng(st, e)
    [] e.e = "frm"    -> EvFrm(st, e)     [] e.e = "xyz"   -> EvXyz(st, e)
    [] e.e = "gs"     -> EvGs(st, e)      [] e.e = "rperp" -> EvRperp(st, e)
    [] e.e = "eq"     -> EvEq(st, e)      [] e.e = "set"   -> EvSet(st, e)
    [] e.e = "upd"    -> EvUpd(st, e)     [] e.e = "updnf" -> EvUpdNf(st, e)
    [] e.e = "lupd0"  -> EvLupd0(st, e)   [] e.e = "obs"   -> EvObs(st, e)
    [] e.e = "lobs"   -> EvLobs(st, e)    [] e.e = "seg"   -> EvSeg(st, e)
    [] e.e = "frozen" -> EvFrozen(st, e)  [] e.e = "rev"   -> EvRev(st, e)
    [] e.e = "mvs"    -> EvMvs(st, e)     [] e.e = "mvend" -> EvMvend(st, e)
    [] e.e = "props"  -> EvProps(st, e)   [] e.e = "effE"  -> EvEffE(st, e)
    [] e.e = "sites"  -> EvSites(st, e)
    [] e.e = "lup"    -> EvLup(st, e)     [] e.e = "lseq"  -> EvLseq(st, e)
    [] e.e = "lend"   -> EvLend(st, e)    [] e.e = "init"  -> EvInit(st, e)
    [] e.e = "beta"   -> EvBeta(st, e)    [] e.e = "log"   -> EvLog(st, e)
    [] e.e = "files"  -> EvFiles(st, e)   [] e.e = "lhead" -> EvLhead(st, e)
    [] e.e = "lbal"   -> EvLbal(st, e)
    [] e.e = "llog"   -> EvLlog(st, e)    [] e.e = "spec"  -> EvSpec(st, e)
    [] e.e = "panic"  -> OUT(st, {"panic"})
    [] e.e = "hang"   -> OUT(st, {"never-returns"})

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = [ch |-> <<>>, u |-> <<>>, w |-> <<>>, z |-> <<>>, zz |-> <<>>]
Next ==
  /\ l <= Len(Trace)
  /\ LET r == TLCEval(Eval(st, FVals(Trace[l]))) IN
     /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(r.bad))
     /\ st' = r.st
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
