------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Sampling with worker threads, a channel and one writer thread that      *)
(* appends to a file that may already hold records.  Work is split over    *)
(* min(threads, points) workers but at least one (there may be nothing to   *)
(* sample), the last one taking the remainder.                             *)
(* Join = FALSE is a deliberately wrong program (the writer is not waited  *)
(* for), Last = FALSE one that forgets the remainder, One = FALSE one that *)
(* asks for an empty pool of workers.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxPoints, MaxThreads, Join, Last, One
VARIABLES pts, thr, left, chan, file, ph
vars == <<pts, thr, left, chan, file, ph>>
Min(a, b) == IF a < b THEN a ELSE b
Pool == IF One /\ pts = 0 THEN 1 ELSE Min(pts, thr)
Workers == 1 .. Pool
Share(w) == LET k == Pool  q == pts \div k IN
            IF w = k /\ Last THEN pts - (k - 1) * q ELSE q
Old == << <<0, 0>> >>                     \* what the file held before
Init == /\ pts \in 0..MaxPoints /\ thr \in 1..MaxThreads
        /\ left = [w \in Workers |-> Share(w)] /\ chan = <<>> /\ file = Old /\ ph = "run"
Sample(w) == /\ ph = "run" /\ left[w] > 0
             /\ chan' = Append(chan, <<w, left[w]>>) /\ left' = [left EXCEPT ![w] = @ - 1]
             /\ UNCHANGED <<pts, thr, file, ph>>
Write == /\ ph # "exit" /\ chan # <<>> /\ file' = Append(file, Head(chan)) /\ chan' = Tail(chan)
         /\ UNCHANGED <<pts, thr, left, ph>>
Drained == \A w \in Workers : left[w] = 0
Drop == ph = "run" /\ Drained /\ ph' = "drop" /\ UNCHANGED <<pts, thr, left, chan, file>>
Exit == ph = "drop" /\ (Join => chan = <<>>) /\ ph' = "exit" /\ UNCHANGED <<pts, thr, left, chan, file>>
Next == (\E w \in Workers : Sample(w)) \/ Write \/ Drop \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
New == SubSeq(file, Len(Old) + 1, Len(file))
HasWorker == Pool >= 1
OldKept   == SubSeq(file, 1, Len(Old)) = Old
Once      == \A i, j \in 1..Len(file) : i # j => file[i] # file[j]
Delivered == ph = "exit" => Len(New) = pts
Ends      == <>(ph = "exit")
=============================================================================
