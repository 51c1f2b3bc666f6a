------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Tests of the distributional parts of the specification on recorded      *)
(* samples.  Every threshold is far in the tail (false-alarm probability   *)
(* below 1e-7 per test), and the samples are reproducible.                 *)
(***************************************************************************)
EXTENDS F64, Sequences, SequencesExt, TLC
LOCAL F(s) == FVal(s)
Sq(x) == FMul(x, x)

(* Kolmogorov-Smirnov statistic of us against the uniform distribution on [0,1] *)
KS(us) ==
  LET o == FSorted(us)
      n == Len(o)
      D(i) == LET a == FAbs(FSub(FDiv(FInt(i), FInt(n)), o[i]))
                  b == FAbs(FSub(FDiv(FInt(i-1), FInt(n)), o[i]))
              IN  IF FLt(a, b) THEN b ELSE a
      m == FoldLeft(LAMBDA acc, i : LET x == D(i) IN IF FLt(acc, x) THEN x ELSE acc,
                    FInt(0), [i \in 1..n |-> i])
  IN  FMul(m, FSqrt(FInt(n)))
(* no hole: the widest gap between neighbouring samples (0 and 1 included) is below (ln(n+1)+20)/n *)
NoHole(us) ==
  LET o == << FInt(0) >> \o FSorted(us) \o << FInt(1) >>
      n == Len(us)
      lim == FDiv(FAdd(FLn(FInt(n + 1)), FInt(20)), FInt(n))
  IN  \A i \in 1..(n + 1) : FLt(FSub(o[i+1], o[i]), lim)
Uniform(us) == Len(us) < 20 \/ (FLt(KS(us), F("3.0")) /\ NoHole(us))

(* us, vs uniform on [0,1]: are they uncorrelated? (six standard deviations) *)
Uncorr(us, vs) ==
  LET n == Len(us)
      s == FSum([i \in 1..n |-> FMul(FSub(us[i], F("0.5")), FSub(vs[i], F("0.5")))])
  IN  n < 30 \/ FLt(FAbs(s), FMul(F("6.0"), FDiv(FSqrt(FInt(n)), F("12.0"))))
Lag(us) == Len(us) < 31 \/ Uncorr(SubSeq(us, 1, Len(us) - 1), SubSeq(us, 2, Len(us)))

(* counts of 1..k in xs consistent with a uniform choice (Wilson-Hilferty, six sigma) *)
EvenCounts(xs, k) ==
  LET n == Len(xs)
      c == FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x] = @ + 1], [i \in 1..k |-> 0], xs)
      e == FDiv(FInt(n), FInt(k))
      X == FSum([i \in 1..k |-> FDiv(Sq(FSub(FInt(c[i]), e)), e)])
      d == FInt(k - 1)
      v == FDiv(FInt(2), FMul(FInt(9), d))
      r == FExp(FDiv(FLn(FDiv(FAdd(X, F("1e-300")), d)), FInt(3)))
      z == FDiv(FSub(r, FSub(FInt(1), v)), FSqrt(v))
  IN  FLt(z, F("6.0"))
(* the same for consecutive pairs: no memory *)
PairCounts(xs, k) ==
  EvenCounts([i \in 1..(Len(xs) - 1) |-> (xs[i] - 1) * k + xs[i+1]], k * k)
=============================================================================
