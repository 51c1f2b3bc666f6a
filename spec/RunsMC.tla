------------------------------- MODULE RunsMC -------------------------------
(***************************************************************************)
(* All schedules of the worker threads, all crash points and all sequences *)
(* of invocations, for small numbers of runs, threads, records.            *)
(* Atomic = FALSE and Early = TRUE are deliberately wrong programs, used   *)
(* to see that the invariants notice them.                                 *)
(***************************************************************************)
EXTENDS Runs, TLC
CONSTANTS MaxRuns, MaxThreads, Records, MaxInv, MaxCrash, Atomic, Early
Top == MaxRuns * MaxInv + MaxRuns
Idx == 0 .. Top
NoLog == [own |-> 0, n |-> 0]
NoTmp == [off |-> -1, whole |-> FALSE]
Idle == [mode |-> "idle", off |-> 0, runs |-> 0, thr |-> 0, ph |-> "idle", opened |-> 0, next |-> 0,
         busy |-> {}, saved |-> FALSE]
VARIABLES log, cfg, tmp, prog, inv, crashes, finished
vars == <<log, cfg, tmp, prog, inv, crashes, finished>>

Init == /\ log = [i \in Idx |-> NoLog] /\ cfg = [off |-> 0, whole |-> TRUE] /\ tmp = NoTmp
        /\ prog = Idle /\ inv = 0 /\ crashes = 0 /\ finished = {}

Start(m, r, t) ==
  /\ prog.ph = "idle" /\ inv < MaxInv
  /\ (r = 0 => m # "scan") /\ (m \in OtherModes => r = 0)
  /\ inv' = inv + 1
  /\ prog' = [Idle EXCEPT !.mode = m, !.off = cfg.off, !.runs = r, !.thr = t, !.ph = "open"]
  /\ UNCHANGED <<log, cfg, tmp, crashes, finished>>

(* the main thread opens (truncates) one log after the other, while workers already run *)
OpenLog ==
  /\ prog.ph = "open" /\ prog.opened < prog.runs
  /\ log' = [log EXCEPT ![prog.off + prog.opened] = [own |-> inv, n |-> 0]]
  /\ prog' = [prog EXCEPT !.opened = @ + 1]
  /\ UNCHANGED <<cfg, tmp, inv, crashes, finished>>
Take ==      \* a worker takes the next run
  /\ prog.ph = "open" /\ Cardinality(prog.busy) < prog.thr /\ prog.next < prog.opened
  /\ prog' = [prog EXCEPT !.next = @ + 1, !.busy = @ \cup {prog.off + prog.next}]
  /\ UNCHANGED <<log, cfg, tmp, inv, crashes, finished>>
Record(i) ==
  /\ i \in prog.busy /\ log[i].n < Records
  /\ log' = [log EXCEPT ![i].n = @ + 1]
  /\ UNCHANGED <<prog, cfg, tmp, inv, crashes, finished>>
RunDone(i) ==
  /\ i \in prog.busy /\ log[i].n = Records
  /\ prog' = [prog EXCEPT !.busy = @ \ {i}]
  /\ UNCHANGED <<log, cfg, tmp, inv, crashes, finished>>
Joined == prog.opened = prog.runs /\ (Early \/ (prog.next = prog.runs /\ prog.busy = {}))
Save ==      \* start writing the new configuration
  /\ prog.ph = "open" /\ Joined /\ prog.mode \in BatchModes
  /\ prog' = [prog EXCEPT !.ph = "save"]
  /\ IF Atomic THEN tmp' = [off |-> NextOff(prog), whole |-> FALSE] /\ UNCHANGED cfg
               ELSE cfg' = [off |-> NextOff(prog), whole |-> FALSE] /\ UNCHANGED tmp
  /\ UNCHANGED <<log, inv, crashes, finished>>
SaveRest ==
  /\ prog.ph = "save" /\ prog' = [prog EXCEPT !.ph = "rename"]
  /\ IF Atomic THEN tmp' = [tmp EXCEPT !.whole = TRUE] /\ UNCHANGED cfg
               ELSE cfg' = [cfg EXCEPT !.whole = TRUE] /\ UNCHANGED tmp
  /\ UNCHANGED <<log, inv, crashes, finished>>
Rename ==
  /\ prog.ph = "rename"
  /\ IF Atomic THEN cfg' = tmp /\ tmp' = NoTmp ELSE UNCHANGED <<cfg, tmp>>
  /\ prog' = [prog EXCEPT !.ph = "saved", !.saved = TRUE]
  /\ finished' = finished \cup { [i |-> i, own |-> inv] : i \in Range(prog) }
  /\ UNCHANGED <<log, inv, crashes>>
Exit ==
  /\ \/ prog.ph = "saved"
     \/ prog.ph = "open" /\ Joined /\ prog.mode \notin BatchModes
  /\ prog' = Idle /\ UNCHANGED <<log, cfg, tmp, inv, crashes, finished>>
Crash ==
  /\ prog.ph # "idle" /\ crashes < MaxCrash
  /\ prog' = Idle /\ crashes' = crashes + 1
  /\ UNCHANGED <<log, cfg, tmp, inv, finished>>
Next == \/ \E m \in {"default", "scan", "sample"}, r \in 0..MaxRuns, t \in 1..MaxThreads : Start(m, r, t)
        \/ OpenLog \/ Take \/ \E i \in prog.busy : Record(i) \/ RunDone(i)
        \/ Save \/ SaveRest \/ Rename \/ Exit \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(OpenLog \/ Take \/ \E i \in Idx : Record(i) \/ RunDone(i))
             /\ WF_vars(Save \/ SaveRest \/ Rename \/ Exit)

CfgWhole          == cfg.whole
OffsetCounts      == cfg.whole => cfg.off = Cardinality(finished) \/ (prog.ph = "rename" /\ ~Atomic)
NoGaps            == { f.i : f \in finished } = 0 .. (Cardinality(finished) - 1)
FinishedKept      == \A f \in finished : log[f.i].own = f.own
FinishedComplete  == \A f \in finished : log[f.i].n = Records
TouchOnlyOwn      == prog.ph # "idle" => \A i \in Idx : log[i].own = inv => MayTouchLog(prog, i) \/ i \in Range(prog)
SaveWhenComplete  == prog.ph \in {"save", "rename", "saved"} => \A i \in Range(prog) : log[i] = [own |-> inv, n |-> Records]
Ends              == (prog.ph # "idle") ~> (prog.ph = "idle")
=============================================================================
