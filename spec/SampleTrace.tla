----------------------------- MODULE SampleTrace -----------------------------
(***************************************************************************)
(* Validates what the sampling modes of the real program deliver, under    *)
(* forced thread schedules: the number of records (Sampling.tla's          *)
(* Delivered, Once, OldKept), that each describes one state of Chain.tla,  *)
(* and at low temperature that it is drawn from the mode's own ensemble.   *)
(***************************************************************************)
EXTENDS Real, Json, IOUtils, FiniteSets
Nums(x) == \A i \in 1..Len(x) : FIsNum(x[i])
V3(x, i) == << x[i], x[i+1], x[i+2] >>
VMul(s, v) == [k \in 1..3 |-> FMul(s, v[k])]
VPlus(a, b) == [k \in 1..3 |-> FAdd(a[k], b[k])]
VMinus(a, b) == [k \in 1..3 |-> FSub(a[k], b[k])]

Width(kind) == CASE kind \in {"mc", "full", "hist_mc", "hist_dyn", "magnus"} -> 11
                 [] kind = "dynhist" -> 5 [] kind = "traj" -> 5 [] kind = "scan" -> 7
ChainOf(c, S, t) ==
  [S |-> S, J |-> [n \in 1..c.hsize |-> << FInt(1), FInt(1), c.lambda >>],
   H |-> [n \in 1..c.hsize |-> IF n <= c.ssize THEN VPlus(c.hfield, c.hs) ELSE c.hfield], t |-> t, c |-> c]

(* the state of a record, where it determines one: sampled spins at m, s, p *)
Layout(c) == CASE c.hsize = 2 /\ c.ssize = 2 -> "full2" [] c.hsize = 4 /\ c.ssize = 4 -> "full4"
               [] c.hsize = 4 /\ c.ssize = 3 -> "sub3" [] OTHER -> "plain"
Exact(c) == c.jvar = FInt(0) /\ c.hvar = FInt(0)
State(c, m, a, b) ==
  LET M == VMul(FInt(c.ssize), m)
      h == VMul(F("0.5"), VMinus(M, VPlus(a, b)))
  IN  CASE Layout(c) = "full2" -> << a, b >> [] Layout(c) = "full4" -> << h, a, h, b >>
        [] Layout(c) = "sub3" -> << a, VMinus(M, VPlus(a, b)), b, Ch!Vec0 >>
(* Monte-Carlo record: total energy, closed subsystem energy, m, two spins *)
McOk(c, x) ==
  /\ IsUnit(V3(x, 6)) /\ IsUnit(V3(x, 9))
  /\ (Layout(c) = "plain" \/ ~Exact(c) \/
      LET ch == ChainOf(c, State(c, V3(x, 3), V3(x, 6), V3(x, 9)), FNeg(c.trel))
          m  == Ch!Mag(ch)
      IN  /\ Near(x[2], Ch!McSystemE(ch), "1e-9")
          /\ (Layout(c) = "sub3" \/ Near(x[1], Ch!TotalE(ch), "1e-9"))
          /\ \A k \in 1..3 : Near(x[2 + k], FDiv(m[k], FInt(c.ssize)), "1e-9")
          /\ (Layout(c) # "sub3" \/ IsUnit(ch.S[2])))
(* histogram record: index, m, open subsystem energy (no drive), two spins *)
HistOk(c, x, i) ==
  /\ x[1] = FInt(i - 1) /\ IsUnit(V3(x, 6)) /\ IsUnit(V3(x, 9))
  /\ (Layout(c) \notin {"full2", "sub3"} \/ ~Exact(c) \/
      LET ch == ChainOf([c EXCEPT !.drive = "none"], State(c, V3(x, 2), V3(x, 6), V3(x, 9)), FNeg(c.trel))
          m  == Ch!Mag(ch)
      IN  /\ Near(x[5], Ch!SystemE(ch), "1e-9")
          /\ \A k \in 1..3 : Near(x[1 + k], FDiv(m[k], FInt(c.ssize)), "1e-9")
          /\ \A n \in 1..c.ssize : FLt(FAbs(FSub(NormF(ch.S[n]), FInt(1))), F("1e-7")))
(* magnetisation and energy of two isotropic sites without fields          *)
Bare(c) == Layout(c) = "full2" /\ Exact(c) /\ c.drive = "none" /\ c.lambda = FInt(1)
           /\ NormF(VPlus(c.hfield, c.hs)) = FInt(0)
PairOk(c, m, e) == ~Bare(c) \/ LET M == VMul(FInt(2), m) IN Near(DotF(M, M), FSub(FInt(2), FMul(FInt(2), e)), "1e-9")
InBall(m) == FLe(NormF(m), F("1.000000001"))
DynOk(c, x) == InBall(V3(x, 2)) /\ PairOk(c, V3(x, 2), x[5])
TrajOk(c, x, i) == DynOk(c, x) /\ Near(x[1], FAdd(FNeg(c.trel), FMul(FInt(30 + i), c.tau)), "1e-6")
ScanOk(c, x) == InBall(V3(x, 5)) /\ PairOk(c, V3(x, 5), x[4])

(* the same for every record ---------------------------------------------- *)
Payload(kind, x) == CASE kind \in {"mc", "full", "scan"} -> x [] OTHER -> SubSeq(x, 2, Len(x))
(* sum of n exponential modes each: shape a; six standard deviations        *)
GammaOk(x, a) ==
  LET n9 == FMul(FInt(9), FInt(a))
      r  == FExp(FDiv(FLn(FDiv(x, FInt(a))), FInt(3)))
      z  == FDiv(FSub(r, FSub(FInt(1), FDiv(FInt(1), n9))), FSqrt(FDiv(FInt(1), n9)))
  IN  FLt(FInt(0), x) /\ FLt(FAbs(z), FInt(6))
Ez == << FInt(0), FInt(0), FInt(1) >>
(* energy above the ground state in the mode's ensemble, two sites          *)
Above(kind, c, x) ==
  LET S == CASE kind \in {"mc", "full"} -> << V3(x, 6), V3(x, 9) >> [] OTHER -> << V3(x, 6), V3(x, 9) >>
      ch == ChainOf(c, S, FInt(0))
  IN  CASE kind \in {"mc", "hist_mc"} -> FAdd(Ch!StaticSum(ch), FAdd(FInt(2), FMul(FInt(2), NormF(ch.H[1]))))
        [] kind = "full"    -> FAdd(Ch!Plain(ch), FInt(2))
        [] kind = "magnus"  -> FAdd(Ch!HMagnus(ch, FDiv(TwoPi, c.tau)), FAdd(FInt(2), FDiv(TwoPi, c.tau)))
        [] kind = "dynhist" -> FAdd(x[5], FInt(1))
Modes(kind) == CASE kind \in {"mc", "hist_mc", "magnus"} -> 2 [] OTHER -> 1
Cold(e) ==
  LET n == Len(e.rec)
      x == FSum([i \in 1..n |-> FMul(e.b, Above(e.kind, e.c, e.rec[i]))])
  IN  GammaOk(x, n * Modes(e.kind))
      (* the second-order ensemble knows no static field *)
      /\ (e.kind # "full" \/ \E i \in 1..n : FLt(F("-0.8"), e.rec[i][5]))

Mean(rec, k) == FDiv(FSum([i \in 1..Len(rec) |-> rec[i][k]]), FInt(Len(rec)))
Printed(e) == e.rec = <<>> \/ Len(e.avg) # 4 \/ \A k \in 1..4 : Near(e.avg[k], Mean(e.rec, k + 1), "1e-9")

Eval(e) ==
  LET n == Len(e.rec)
      lay == \A i \in 1..n : Len(e.rec[i]) = Width(e.kind) /\ Nums(e.rec[i])
      good == CASE e.kind \in {"mc", "full"} -> \A i \in 1..n : McOk(e.c, e.rec[i])
                [] e.kind \in {"hist_mc", "hist_dyn", "magnus"} -> \A i \in 1..n : HistOk(e.c, e.rec[i], i)
                [] e.kind = "dynhist" -> \A i \in 1..n : DynOk(e.c, e.rec[i])
                [] e.kind = "traj" -> \A i \in 1..n : TrajOk(e.c, e.rec[i], i)
                [] e.kind = "scan" -> \A i \in 1..n : ScanOk(e.c, e.rec[i])
  IN  Chk("program-ends", ~e.hung) \cup Chk("exit-code", e.hung \/ e.rc = 0)
      \cup Chk("old-contents-kept", e.kept) \cup Chk("whole-records", e.nl)
      \cup Chk("as-many-records-as-requested", n = e.want)
      \cup Chk("record-layout", lay)
      \cup (IF ~lay \/ n = 0 THEN {} ELSE
            Chk("record-consistent", good)
            \cup Chk("each-sample-once", \A i, j \in 1..n : i < j => Payload(e.kind, e.rec[i]) # Payload(e.kind, e.rec[j]))
            \cup Chk("indices", e.kind # "dynhist" \/ { e.rec[i][1] : i \in 1..n } = { FInt(i - 1) : i \in 1..n })
            \cup Chk("one-record-per-period", e.kind # "scan" \/ { e.rec[i][1] : i \in 1..n } = { e.taus[i] : i \in 1..Len(e.taus) })
            \cup Chk("one-trajectory", e.kind # "traj" \/ ~Bare(e.c) \/ \A i \in 1..n : Near(e.rec[i][5], e.rec[1][5], "1e-9"))
            \cup Chk("printed-averages", e.kind # "magnus" \/ Printed(e))
            \cup Chk("ensemble-of-the-mode", ~e.cold \/ n # e.want \/ Cold(e)))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {FVals(Trace[l])} : \E bad \in {Eval(e)} :
     IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_l
=============================================================================
