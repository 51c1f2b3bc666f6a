------------------------------- MODULE ModesMC -------------------------------
(***************************************************************************)
(* Requesting modes together leaves the same disk as requesting them one   *)
(* at a time.  Every set of up to MaxModes modes, with and without -t and  *)
(* -b, is performed both ways in lockstep.                                 *)
(*                                                                         *)
(* Scratch = "kept" is a program whose modes leave their own settings to   *)
(* the modes after them; Advance = "end" one that saves the offset only    *)
(* after its last mode.  Both are refuted.                                 *)
(***************************************************************************)
EXTENDS Modes, TLC
CONSTANTS MaxModes, Scratch, Advance
VARIABLES S, opt, k, mem, one, two, cfg1, cfg2
vars == << S, opt, k, mem, one, two, cfg1, cfg2 >>

Base == { [off |-> o, runs |-> 2, t |-> "t", hsize |-> 4, ssize |-> s, tau |-> "tau", beta |-> "beta", fields |-> "own", edn |-> "edn",
           drive |-> "d", file |-> "log"] : o \in {0, 3}, s \in {2, 4} }
Opts == { [tau |-> a, beta |-> b] : a \in {"", "T"}, b \in {"", "B"} }
Empty == [f \in {} |-> << >>]
Get(d, f) == IF f \in DOMAIN d THEN d[f] ELSE << >>
(* the disk after mode m ran with configuration c                          *)
Disk(d, m, c) ==
  LET u == << m, Uses(m, c) >>
      a == [f \in { << x, -1 >> : x \in Appends(m) } |-> Append(Get(d, f), u)]
      r == [f \in { << x, -1 >> : x \in Replaces(m) } |-> << u >>]
      n == IF Logs(m) THEN [i \in { << c.file, j >> : j \in c.off..(c.off + c.runs - 1) } |-> << u >>] ELSE Empty
  IN  n @@ a @@ r @@ d
Sets == { x \in SUBSET All : Cardinality(x) <= MaxModes }
Init ==
  /\ S \in Sets /\ opt \in Opts /\ k = 1
  /\ cfg1 \in Base /\ cfg2 = cfg1
  /\ mem = Given(cfg1, opt)
  /\ one = Empty /\ two = Empty
Step ==
  LET ms == Performed(S)  m == ms[k]
      c == Warm(mem, opt, m)                                   \* together
      x == Leaves(m, IF m \in Batch \/ Scratch = "kept" THEN Uses(m, c) ELSE c)
      d == Warm(Given(cfg2, opt), opt, m)                      \* alone
  IN  /\ k <= Len(ms)
      /\ one' = Disk(one, m, c)
      /\ cfg1' = IF m \in Batch THEN x ELSE cfg1
      /\ mem' = IF m \in Batch /\ Advance = "end" THEN Uses(m, c)
                ELSE IF m \in Batch \/ Scratch = "kept" THEN x ELSE mem
      /\ two' = Disk(two, m, d)
      /\ cfg2' = IF m \in Batch THEN Leaves(m, Uses(m, d)) ELSE cfg2
      /\ k' = k + 1 /\ UNCHANGED << S, opt >>
Next == Step
Spec == Init /\ [][Next]_vars

SameDisk == one = two
SameConfig == cfg1 = cfg2
NothingElse == { IF f[2] = -1 THEN f[1] ELSE "logs" : f \in DOMAIN one } \subseteq Touched(S)
DefaultOnlyAlone == S # {} => \A f \in DOMAIN one : \A i \in 1..Len(one[f]) : one[f][i][1] \in S
(* logs of one invocation never overwrite each other, unless a scan's      *)
Numbers == \A f \in DOMAIN one : Len(one[f]) >= 1
=============================================================================
