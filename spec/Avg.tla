-------------------------------- MODULE Avg --------------------------------
(***************************************************************************)
(* Averages over log files.  A file is a sequence of records, a record a   *)
(* sequence of scalars whose first one is the time.  Both averages are     *)
(* given declaratively (Sums, Count: what every line of the output is made *)
(* of) and as the transition that takes in one more file (Take), in any    *)
(* order; AvgMC.tla checks that they agree.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Add(_,_), Mul(_,_), Zero, IsZeroTime(_)

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Longest(files) == MaxOf({ Len(files[f]) : f \in 1..Len(files) })
OutLines(files) == IF Longest(files) = 0 THEN 0 ELSE Longest(files) - 1
(* files that have an (n+1)-th line *)
Having(files, n) == { f \in 1..Len(files) : Len(files[f]) > n }
Count(files, n) == Cardinality(Having(files, n))

(* the record at time zero, wherever it stands *)
ZeroAt(file) == CHOOSE i \in 1..Len(file) : Len(file[i]) > 0 /\ IsZeroTime(file[i][1])
HasZero(file) == \E i \in 1..Len(file) : Len(file[i]) > 0 /\ IsZeroTime(file[i][1])
Weighted(file, rec) == LET z == file[ZeroAt(file)] IN
                       [k \in 1..Len(rec) |-> IF k = 1 THEN rec[1] ELSE Mul(rec[k], z[k])]
(* what file f contributes to line n *)
Part(files, f, n, two) == IF two THEN Weighted(files[f], files[f][n + 1]) ELSE files[f][n + 1]

Sums(files, n, two) ==
  LET fs == SetToSeq(Having(files, n))
      w  == Len(Part(files, fs[1], n, two))
  IN  [k \in 1..w |-> FoldLeft(LAMBDA acc, f : Add(acc, Part(files, f, n, two)[k]), Zero, fs)]

(* one more file: acc = [n |-> counts, s |-> sums] per line *)
Take(acc, files, f, two) ==
  LET m == Len(files[f]) - 1
      have == Len(acc.n)
      tot == IF m > have THEN m ELSE have
      Line(i) == IF i > m THEN acc.s[i]
                 ELSE LET p == Part(files, f, i, two) IN
                      IF i > have THEN p ELSE [k \in 1..Len(p) |-> Add(acc.s[i][k], p[k])]
  IN  [n |-> [i \in 1..tot |-> (IF i <= have THEN acc.n[i] ELSE 0) + (IF i <= m THEN 1 ELSE 0)],
       s |-> [i \in 1..tot |-> Line(i)]]
=============================================================================
