-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Numbered batches of dynamical runs, as the file system sees them.       *)
(*                                                                         *)
(* The disk holds the run logs and config.toml; a program invocation is a  *)
(* batch (mode in BatchModes) of `runs` runs numbered from `off`, or a     *)
(* sampling/averaging invocation.  The operators say which file operations *)
(* an invocation may perform in a given situation; RunsMC.tla explores all *)
(* schedules and crash points of programs that perform them, and           *)
(* RunsTrace.tla validates the operations recorded from the real program.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BatchModes  == {"default", "ext", "langevin", "response", "profile"}
ScanModes   == {"scan"}                      \* single-shot period scan: writes to its own range, keeps config.toml
OtherModes  == {"sample", "average", "fit", "describe"}

(* numbers of the logs an invocation works on *)
Range(p) == IF p.mode \in BatchModes \cup ScanModes THEN p.off .. (p.off + p.runs - 1) ELSE {}
(* it may create, truncate or extend the log with number i ... *)
MayTouchLog(p, i)  == i \in Range(p) /\ ~p.saved
(* ... and may replace config.toml only when all its logs are complete *)
MayReplaceCfg(p, complete) == p.mode \in BatchModes /\ ~p.saved /\ Range(p) \subseteq complete
(* the configuration a finished batch leaves *)
NextOff(p) == IF p.mode \in BatchModes THEN p.off + p.runs ELSE p.off
=============================================================================
