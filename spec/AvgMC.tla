------------------------------- MODULE AvgMC -------------------------------
(***************************************************************************)
(* All small sets of log files, taken in in every order: the result is the *)
(* declarative average, and the input is not modified.  Every shape (how   *)
(* many files, how long each, where the record at time zero stands) is     *)
(* written to CASES, to be filled with numbers and given to the program.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
A == INSTANCE Avg WITH Add <- LAMBDA a, b : a + b, Mul <- LAMBDA a, b : a * b, Zero <- 0,
       IsZeroTime <- LAMBDA t : t = 0
MaxFiles == atoi(IOEnv.MAXFILES)
MaxLen   == atoi(IOEnv.MAXLEN)

(* a shape: per file its length and the line of its zero-time record (0: none) *)
FileShapes == { <<n, z>> \in (0..MaxLen) \X (0..MaxLen) : z <= n }
Shapes == UNION { [1..k -> FileShapes] : k \in 0..MaxFiles }
(* distinct numbers everywhere: record i of file f *)
Content(sh, f) == [i \in 1..sh[f][1] |->
     << IF i = sh[f][2] THEN 0 ELSE 7 * i + f, 3 * i * i + 11 * f, 2 * i - 5 * f * f >>]
Files(sh) == TLCEval([f \in 1..Len(sh) |-> Content(sh, f)])
TwoOk(sh) == \A f \in 1..Len(sh) : sh[f][2] > 0

VARIABLES sh, two, todo, acc
vars == <<sh, two, todo, acc>>
Init == /\ sh \in Shapes /\ two \in BOOLEAN /\ (two => TwoOk(sh))
        /\ todo = 1..Len(sh) /\ acc = [n |-> <<>>, s |-> <<>>]
TakeFile(f) == /\ f \in todo /\ todo' = todo \ {f}
               /\ acc' = IF Len(Files(sh)[f]) = 0 THEN acc ELSE A!Take(acc, Files(sh), f, two)
               /\ UNCHANGED <<sh, two>>
Next == \E f \in todo : TakeFile(f)
Spec == Init /\ [][Next]_vars

Done == todo = {}
Agrees == Done => /\ Len(acc.n) = A!OutLines(Files(sh))
                  /\ \A n \in 1..Len(acc.n) : acc.n[n] = A!Count(Files(sh), n)
                                            /\ acc.s[n] = A!Sums(Files(sh), n, two)
(* shapes up to renaming of the files *)
Ordered(s) == \A i \in 1..(Len(s)-1) : s[i][1] * 100 + s[i][2] <= s[i+1][1] * 100 + s[i+1][2]
ASSUME ndJsonSerialize(IOEnv.CASES, LET q == SetToSeq({ s \in Shapes : Ordered(s) }) IN
                                    [i \in 1..Len(q) |-> [id |-> i, sh |-> q[i], two |-> TwoOk(q[i])]])
=============================================================================
