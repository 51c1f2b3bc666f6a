------------------------------ MODULE Profile -------------------------------
(***************************************************************************)
(* Site profiles: every run evolves its own clock and, at every mark,      *)
(* sends one message per site to that mark's writer, which adds them up    *)
(* and writes its file once it has heard all sites of all runs.  At most   *)
(* thr runs are under way at a time.  Times are integers: a step dt need   *)
(* not divide the distance P of the marks.                                 *)
(* Rule = "hit" is a deliberately wrong program (a mark is recognised only *)
(* at the very instant), Expect = "threads" one that counts wrongly, and   *)
(* Every = "each" one that sends at every step from the mark on.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRuns, MaxThreads, Sites, Marks, P, Rule, Expect, Every
VARIABLES runs, thr, dt, clock, nxt, got, file, ph
vars == <<runs, thr, dt, clock, nxt, got, file, ph>>
Min(a, b) == IF a < b THEN a ELSE b
R == 1..runs
End == Marks * P
Init == /\ runs \in 1..MaxRuns /\ thr \in 1..MaxThreads /\ dt \in 1..P
        /\ clock = [r \in 1..runs |-> -1] /\ nxt = [r \in 1..runs |-> 1]
        /\ got = [k \in 1..Marks |-> <<>>] /\ file = [k \in 1..Marks |-> <<>>] /\ ph = "run"
Active(r) == clock[r] >= 0 /\ clock[r] < End
(* runs start in order, as far as there are threads *)
Start(r) == /\ ph = "run" /\ clock[r] = -1 /\ \A q \in R : q < r => clock[q] >= 0
            /\ Cardinality({ q \in R : Active(q) }) < Min(thr, runs)
            /\ clock' = [clock EXCEPT ![r] = 0] /\ UNCHANGED <<runs, thr, dt, nxt, got, file, ph>>
Reached(k, u) == CASE Rule = "crossed" -> u >= k * P [] Rule = "hit" -> u = k * P
Msgs(r) == [s \in 1..Sites |-> <<s, r>>]
Step(r) ==
  /\ ph = "run" /\ Active(r)
  /\ LET u == clock[r] + dt IN
     /\ clock' = [clock EXCEPT ![r] = u]
     /\ IF nxt[r] <= Marks /\ Reached(nxt[r], u)
        THEN /\ got' = [got EXCEPT ![nxt[r]] = @ \o Msgs(r)]
             /\ nxt' = IF Every = "each" /\ u < (nxt[r] + 1) * P /\ u < End THEN nxt ELSE [nxt EXCEPT ![r] = @ + 1]
        ELSE UNCHANGED <<got, nxt>>
  /\ UNCHANGED <<runs, thr, dt, file, ph>>
Need == Sites * (IF Expect = "runs" THEN runs ELSE Min(thr, runs))
Sum(k) == [s \in 1..Sites |-> [r \in R |-> Cardinality({ i \in 1..Need : got[k][i] = <<s, r>> })]]
Write(k) == /\ file[k] = <<>> /\ Len(got[k]) >= Need /\ file' = [file EXCEPT ![k] = Sum(k)]
            /\ UNCHANGED <<runs, thr, dt, clock, nxt, got, ph>>
AllDone == \A r \in R : clock[r] >= End
Exit == /\ ph = "run" /\ AllDone /\ \A k \in 1..Marks : file[k] # <<>>
        /\ ph' = "exit" /\ UNCHANGED <<runs, thr, dt, clock, nxt, got, file>>
Next == (\E r \in R : Start(r) \/ Step(r)) \/ (\E k \in 1..Marks : Write(k)) \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A k \in 1..Marks : file[k] # <<>> => \A s \in 1..Sites, r \in R : file[k][s][r] = 1
Whole == ph = "exit" => \A k \in 1..Marks : file[k] # <<>>
Ends == <>(ph = "exit")
=============================================================================
