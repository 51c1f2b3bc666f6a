------------------------------ MODULE ModesTrace ------------------------------
(***************************************************************************)
(* Validates which files an invocation of the real program with several    *)
(* modes creates, extends and replaces against Modes.tla.  (What is in     *)
(* them is validated by RunsTrace, SampleTrace, FitTrace, AvgTrace and     *)
(* ProfileTrace, each mode's share with the configuration Modes.tla gives  *)
(* it: the one on the disk.)                                               *)
(***************************************************************************)
EXTENDS Modes, Json, IOUtils, TLC
Chk(name, ok) == IF ok THEN {} ELSE {name}
Range(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
(* without logging, and without runs, there are no logs                     *)
HasLogs(e, m) == IF m = "scan" THEN e.log ELSE m \in Batch /\ e.runs > 0 /\ (e.log \/ m = "langevin")
May(e) == Touched(Range(e.modes))
Must(e) == { f \in May(e) : f # "logs" \/ \E i \in 1..Len(Performed(Range(e.modes))) : HasLogs(e, Performed(Range(e.modes))[i]) }
Wanted(e, f) ==
  LET p == Performed(Range(e.modes))
      w == [i \in 1..Len(p) |-> LET h == { k \in 1..Len(e.want) : e.want[k][1] = p[i] /\ e.want[k][2] = f } IN
                                IF h = {} THEN 0 ELSE e.want[CHOOSE k \in h : TRUE][3]]
  IN  Sum(w)
(* records of several modes in one file come in the program's order         *)
Sequence(e, f) == LET p == SelectSeq(Performed(Range(e.modes)), LAMBDA m : f \in Appends(m)) IN
                  [i \in 1..Len(p) |-> LET k == CHOOSE k \in 1..Len(e.keys) : e.keys[k][1] = p[i] IN e.keys[k][2]]
Eval(e) ==
  Chk("program-ends", ~e.hung) \cup Chk("exit-code", e.hung \/ e.rc = 0)
  \cup Chk("only-requested-modes", Range(e.touched) \subseteq May(e))
  \cup Chk("every-requested-mode", Must(e) \subseteq Range(e.touched))
  \cup Chk("nothing-else-written", e.other = << >>)
  \cup Chk("as-many-records-as-requested", \A k \in 1..Len(e.added) : e.added[k][2] = Wanted(e, e.added[k][1]))
  \cup Chk("old-contents-kept", e.kept)
  \cup Chk("in-program-order", \A k \in 1..Len(e.order) : e.order[k][2] = Sequence(e, e.order[k][1]))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ \E bad \in {Eval(Trace[l])} :
     IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_l
=============================================================================
