-------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* What one invocation of the program does when several modes are          *)
(* requested.                                                              *)
(*                                                                         *)
(* An invocation reads config.toml once, applies -t and -b, and performs   *)
(* the requested modes in the order `Order`, whatever the order of the     *)
(* options; the default batch is performed iff no mode is requested.  A    *)
(* mode writes records (`Appends`) or whole files (`Replaces`) or          *)
(* numbered logs (`Logs`).  It uses the configuration with the settings    *)
(* of its own (`Uses`), which is nobody else's business: the configuration *)
(* handed to the next mode is the one the batches leave on the disk        *)
(* (`Leaves`).  So that performing modes together is performing them one   *)
(* at a time, which ModesMC.tla checks of this description.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Order == << "describe", "ext", "scan", "D", "r", "E", "f", "F", "H", "A", "hist", "dynhist", "magnus", "traj",
            "avg", "two", "mc", "mcprofile", "profile", "full", "langevin", "response" >>
All == { Order[i] : i \in 1..Len(Order) }
Default == "default"
Batch == {"ext", "profile", "langevin", "response", Default}
Fits == {"D", "r", "E", "f", "F", "H", "A"}
InOrder(S) == SelectSeq(Order, LAMBDA m : m \in S)
Performed(S) == IF S = {} THEN << Default >> ELSE InOrder(S)

(* files a mode extends by records, replaces, or numbers                   *)
Appends(m) ==
  CASE m \in {"D", "A"} -> {"beta"} [] m \in {"f", "F", "H"} -> {"betat"} [] m = "r" -> {"betat-rot"} [] m = "E" -> {"betat-maglab"}
    [] m = "hist" -> {"hist-mc", "hist-dyn"} [] m = "dynhist" -> {"dyn-hist"} [] m = "magnus" -> {"hist-magnus"} [] m = "traj" -> {"hist-st"}
    [] m \in {"mc", "full"} -> {"mc-live"} [] m = "scan" -> {"evt"} [] OTHER -> {}
Replaces(m) == CASE m = "avg" -> {"avg"} [] m = "two" -> {"two-point"} [] m = "mcprofile" -> {"mc-profile"} [] m = "profile" -> {"dyn-profile"}
                 [] OTHER -> {}
Logs(m) == m \in Batch \cup {"scan"}
Writes(m) == Appends(m) \cup Replaces(m) \cup (IF Logs(m) THEN {"logs"} ELSE {}) \cup (IF m \in Batch THEN {"config"} ELSE {})
Touched(S) == UNION { Writes(Performed(S)[i]) : i \in 1..Len(Performed(S)) }

(* the temperature: -b, or for the modes performed early the configured    *)
(* one, or that of the configured energy density                           *)
Early(m) == m \in {"ext", "scan"} \cup Fits
Given(c, o) == [c EXCEPT !.tau = IF o.tau = "" THEN @ ELSE o.tau, !.beta = IF o.beta = "" THEN @ ELSE o.beta]
Warm(c, o, m) == IF Early(m) \/ o.beta # "" THEN c ELSE [c EXCEPT !.beta = << "solved", c.edn >>]

(* settings of the mode's own, on top of the configuration                 *)
Uses(m, c) ==
  CASE m = "D" -> [c EXCEPT !.tau = "own", !.fields = "frame"]
    [] m \in {"r", "E"} -> [c EXCEPT !.edn = "own", !.beta = "fitted"]
    [] m = "f" -> [c EXCEPT !.edn = "own", !.fields = "frame", !.hsize = c.ssize, !.beta = "fitted"]
    [] m = "F" -> [c EXCEPT !.edn = "own", !.fields = "frame", !.beta = "fitted"]
    [] m = "H" -> [c EXCEPT !.edn = "own", !.fields = "fast"]
    [] m = "A" -> [c EXCEPT !.edn = "measured", !.tau = "own", !.fields = "frame", !.beta = "fitted"]
    [] m \in {"hist", "magnus"} -> [c EXCEPT !.drive = "none", !.file = "x"]
    [] m = "profile" -> [c EXCEPT !.t = "long"]
    [] m = "langevin" -> [c EXCEPT !.hsize = c.ssize]
    [] OTHER -> c
(* what a batch leaves in config.toml                                      *)
Leaves(m, c) == IF m \in Batch THEN [c EXCEPT !.off = @ + c.runs] ELSE c
=============================================================================
