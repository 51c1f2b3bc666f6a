------------------------------ MODULE RunsTrace ------------------------------
(***************************************************************************)
(* Validates the file operations recorded from the real program against    *)
(* Runs.tla.  A history is: a disk with some finished logs, then program   *)
(* invocations one after the other, each possibly killed at some operation.*)
(***************************************************************************)
EXTENDS F64, Runs, Json, IOUtils, SequencesExt, TLC
Chk(name, ok) == IF ok THEN {} ELSE {name}
OUT(st, bad) == [st |-> st, bad |-> bad]
Close(a, b, tol) == FClose(a, b, FVal(tol))

(* how many lines a log of a run must have ------------------------------- *)
RECURSIVE Count(_, _, _, _, _)
Count(c, t, acc, all, fuel) ==
  IF fuel = 0 \/ ~FLt(t, c.t) THEN acc
  ELSE LET u == FAdd(t, c.dt)
           k == FRound(FDiv(u, c.dt))
           hit == (~all /\ k % FRound(FDiv(c.tau, c.dt)) = 0) \/ all
       IN  Count(c, u, IF hit THEN acc + 1 ELSE acc, all, fuel - 1)
(* runs too long to count step by step have a step that divides all times exactly *)
Long(c, from) == LET s == FRound(FDiv(FSub(c.t, from), c.dt))  p == FDiv(c.tau, c.dt) IN
                 IF c.strob = "false" THEN s
                 ELSE FFloor(FDiv(FDiv(c.t, c.dt), p)) - FFloor(FDiv(FDiv(from, c.dt), p))
Recs(c, from) == IF FLt(FInt(1900), FDiv(FSub(c.t, from), c.dt)) THEN Long(c, from) ELSE Count(c, from, 0, c.strob = "false", 2000)
Interior(c) == LET k == IF c.ssize < c.hsize - 1 THEN c.ssize ELSE c.hsize - 1 IN k - 1
Lines(c, mode) ==
  CASE mode = "default"  -> 1 + Recs(c, FNeg(c.trel))
    [] mode = "langevin" -> 2 + Recs(c, FNeg(c.trel))
    [] mode = "response" -> 1 + Recs(c, FNeg(c.t))
    [] mode = "ext"      -> 1 + Recs(c, FNeg(c.trel)) * (Interior(c) + 1)
    [] mode = "profile"  -> 0
    [] mode = "scan"     -> 1
HasLogs(c, mode) == mode = "langevin" \/ c.log = "true"

(* the configuration a part of an invocation runs with ------------------- *)
Coth(b) == LET q == FExp(FMul(FInt(-2), b)) IN FDiv(FAdd(FInt(1), q), FSub(FInt(1), q))
Solves(b, e) == FFinite(b) /\ FLt(FInt(0), b) /\ Close(FSub(FDiv(FInt(1), b), Coth(b)), e, "2e-4")
Over(c, over, mode) ==
  LET c1 == IF "tau" \in DOMAIN over THEN [c EXCEPT !.tau = over.tau] ELSE c
      c2 == IF mode = "profile" THEN [c1 EXCEPT !.t = FMul(FInt(4000), c1.tau)] ELSE c1
  IN  IF mode = "langevin" THEN [c2 EXCEPT !.hsize = c2.ssize] ELSE c2
Temperature(c, over, mode, b) ==
  IF "beta" \in DOMAIN over THEN b = over.beta
  ELSE IF mode \in {"ext", "scan"} THEN b = c.beta ELSE Solves(b, c.ednsty)
Same(a, b) == a = b \/ (FIsNum(a) /\ FIsNum(b) /\ Close(a, b, "1e-12"))
SameCfg(a, b, except) == \A k \in DOMAIN b \ except : k \in DOMAIN a /\ Same(a[k], b[k])

(* the program part that is running; log numbers are relative to nothing - *)
None == [mode |-> "none", off |-> 0, runs |-> 0, saved |-> FALSE, lines |-> 0, logs |-> FALSE]
Part(st, parts, over, k) ==
  IF k > Len(parts) THEN None
  ELSE LET c == Over(st.cfg, over, parts[k].mode) IN
       [mode |-> parts[k].mode, off |-> c.offset,
        runs |-> IF parts[k].mode = "scan" THEN parts[k].n ELSE c.runs, saved |-> FALSE,
        lines |-> IF parts[k].mode = "scan" THEN 1 ELSE Lines(c, parts[k].mode), logs |-> HasLogs(c, parts[k].mode)]
EmptyLogs == << >>
Stat(st, i) == LET h == { k \in 1..Len(st.logs) : st.logs[k].i = i } IN
               IF h = {} THEN [i |-> i, n |-> -1, whole |-> TRUE] ELSE st.logs[CHOOSE k \in h : TRUE]
Put(st, r) == [st EXCEPT !.logs = SelectSeq(st.logs, LAMBDA x : x.i # r.i) \o <<r>>]
Complete(st) == IF ~st.p.logs THEN Range(st.p)
                ELSE { i \in Range(st.p) : Stat(st, i).n = st.p.lines /\ Stat(st, i).whole }

EvDisk(st, e) ==
  OUT([has |-> e.has, cfg |-> e.cfg, fin |-> e.logs, p |-> None, k |-> 1, parts |-> << >>, over |-> << >>,
       logs |-> << >>, own |-> << >>], {})
EvEdit(st, e) == OUT([st EXCEPT !.cfg = e.cfg], {})          \* the user edits config.toml
EvStart(st, e) ==
  LET s0 == [st EXCEPT !.parts = e.parts, !.over = e.over, !.k = 1, !.logs = << >>, !.own = << >>] IN
  OUT([s0 EXCEPT !.p = IF st.has THEN Part(s0, e.parts, e.over, 1) ELSE None], {})
(* a scan leaves no mark of its end but its complete logs; the next part begins by opening a log anew *)
ScanOver(st, e) == st.p.mode = "scan" /\ st.k < Len(st.parts)
                   /\ (IF e.e = "cfg" THEN TRUE ELSE e.n = 0 /\ (~st.p.logs \/ e.i \notin Range(st.p) \/ Stat(st, e.i).n # -1))
Advance(st, e) ==
  IF ~ScanOver(st, e) THEN OUT(st, {})
  ELSE OUT([st EXCEPT !.k = @ + 1, !.logs = << >>, !.p = Part(st, st.parts, st.over, st.k + 1)],
           Chk("scan-complete", Range(st.p) \subseteq Complete(st)))
EvLog(st, e) ==
  OUT(Put(st, [i |-> e.i, n |-> e.n, whole |-> e.whole]),
      Chk("log-outside-own-numbers", MayTouchLog(st.p, e.i) /\ st.p.logs)
      \cup Chk("finished-log-touched", \A k \in 1..Len(st.fin) : st.fin[k][1] # e.i))
EvCfg(st, e) ==
  IF ~e.ok THEN OUT(st, Chk("config-whole", ~st.has /\ e.absent))
  ELSE IF ~st.has THEN OUT([st EXCEPT !.has = TRUE, !.cfg = e.kv], Chk("fresh-offset", e.kv.offset = 0))
  ELSE IF SameCfg(e.kv, st.cfg, {}) /\ ~(st.p.mode \in BatchModes /\ st.p.runs = 0) THEN OUT(st, {})       \* rewritten as it was
  ELSE
    LET c == Over(st.cfg, st.over, st.p.mode)
        s1 == [st EXCEPT !.cfg = e.kv, !.k = @ + 1, !.logs = << >>,
                         !.own = @ \o [x \in 1..Cardinality(Range(st.p)) |-> st.p.off + x - 1]]
    IN  OUT([s1 EXCEPT !.p = Part(s1, st.parts, st.over, st.k + 1)],
          Chk("config-replaced-by-batches-only", st.p.mode \in BatchModes)
          \cup (IF st.p.mode \notin BatchModes THEN {} ELSE
               Chk("config-before-logs-complete", MayReplaceCfg(st.p, Complete(st)))
               \cup Chk("offset-advanced-by-runs", e.kv.offset = NextOff(st.p))
               \cup Chk("configuration-used", SameCfg(e.kv, c, {"offset", "beta"})
                                              /\ Temperature(st.cfg, st.over, st.p.mode, e.kv.beta))))
EvEnd(st, e) ==
  LET at(i) == { k \in 1..Len(e.logs) : e.logs[k][1] = i }
      hash(i) == IF at(i) = {} THEN "gone" ELSE e.logs[CHOOSE k \in at(i) : TRUE][2]
      newfin == st.fin \o SelectSeq([x \in 1..Len(st.own) |-> <<st.own[x], hash(st.own[x])>>], LAMBDA y : y[2] # "gone")
  IN  OUT([st EXCEPT !.fin = newfin, !.p = None, !.logs = << >>, !.own = << >>],
          Chk("program-ends", ~e.hung) \cup Chk("exit-code", e.crash \/ e.rc = 0)
          \cup Chk("finished-logs-kept", \A k \in 1..Len(st.fin) : hash(st.fin[k][1]) = st.fin[k][2])
          \cup Chk("config-on-disk", IF st.has THEN e.ok /\ SameCfg(e.kv, st.cfg, {}) ELSE (e.crash /\ e.absent))
          \cup Chk("batch-saved", e.crash \/ e.rc # 0 \/ e.hung \/ st.p.mode \in {"none", "scan"})
          \cup Chk("scan-complete", e.crash \/ st.p.mode # "scan" \/ Range(st.p) \subseteq Complete(st)))

EvalAt(st, e) == CASE e.e = "disk" -> EvDisk(st, e) [] e.e = "edit" -> EvEdit(st, e) [] e.e = "start" -> EvStart(st, e) [] e.e = "log" -> EvLog(st, e)
                 [] e.e = "cfg" -> EvCfg(st, e) [] e.e = "end" -> EvEnd(st, e)
Eval(st, e) == IF e.e \notin {"log", "cfg"} THEN EvalAt(st, e)
               ELSE LET a == Advance(st, e)  b == EvalAt(a.st, e) IN OUT(b.st, a.bad \cup b.bad)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, state
Init == l = 1 /\ state = << >>
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {FVals(Trace[l])} : \E r \in {Eval(state, e)} :
     /\ state' = r.st
     /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(r.bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_<<l, state>>
=============================================================================
