------------------------------ MODULE AvgTrace ------------------------------
(* Validates what the program made of sets of log files against Avg.tla.   *)
EXTENDS F64, Json, IOUtils, Integers, Sequences, SequencesExt, FiniteSets, TLC
A == INSTANCE Avg WITH Add <- FAdd, Mul <- FMul, Zero <- FInt(0),
       IsZeroTime <- LAMBDA t : FLt(FAbs(t), FVal("0.00001"))
Chk(name, ok) == IF ok THEN {} ELSE {name}
(* numbers of a line; headers and empty lines have none *)
Nums(line) == SelectSeq(line, LAMBDA x : FIsNum(x))
Files(e) == [f \in 1..Len(e.files) |-> [i \in 1..Len(e.files[f]) |-> Nums(e.files[f][i])]]
(* scale of a column's terms, for the rounding allowance *)
LineOk(fs, n, two, got) ==
  LET s == A!Sums(fs, n, two)  c == FInt(A!Count(fs, n)) IN
  /\ Len(got) = Len(s) /\ \A k \in 1..Len(s) : FIsNum(got[k])
  /\ \A k \in 1..Len(s) :
       LET abs == FSum([f \in 1..Len(fs) |-> IF f \in A!Having(fs, n) THEN FAbs(A!Part(fs, f, n, two)[k]) ELSE FInt(0)])
       IN  FLe(FAbs(FSub(FMul(got[k], c), s[k])), FMul(FVal("1e-12"), abs))
Eval(e) ==
  LET fs == TLCEval(Files(e))
      two == e.e = "two"
      n == A!OutLines(fs)
  IN  Chk("finished", e.rc = 0)
      \cup Chk("inputs-kept", e.kept) \cup Chk("nothing-else-touched", e.others)
      \cup (IF e.rc # 0 THEN {} ELSE
            Chk("one-line-per-line", Len(e.out) = n)
            \cup Chk("mean", Len(e.out) # n \/ \A i \in 1..n : LineOk(fs, i, two, e.out[i])))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {FVals(Trace[l])} : \E bad \in {Eval(e)} :
     IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_l
=============================================================================
