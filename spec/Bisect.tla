------------------------------- MODULE Bisect -------------------------------
(***************************************************************************)
(* The temperature fit: bisection of a bracket on a falling energy curve,  *)
(* whose estimates may be off by up to Noise.  Inverse temperatures are    *)
(* the integers 0..N (N a power of two); the energy at b is Curve[b].      *)
(* Keep = "wrong" is a deliberately wrong program (the other half), Stop   *)
(* = "early" one that stops at a bracket still two wide.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, MaxE, Noise, Keep, Stop
VARIABLES curve, target, lo, hi, ph, res
vars == <<curve, target, lo, hi, ph, res>>
Falling == { c \in [0..N -> 0..MaxE] : \A b \in 1..N : c[b] <= c[b-1] }
Init == /\ curve \in Falling /\ target \in 0..MaxE /\ curve[N] <= target /\ target <= curve[0]
        /\ lo = 0 /\ hi = N /\ ph = "run" /\ res = 0
Mid == (lo + hi) \div 2
Width == IF Stop = "early" THEN 2 ELSE 1
Halve == /\ ph = "run" /\ hi - lo > Width
         /\ \E e \in (curve[Mid] - Noise)..(curve[Mid] + Noise) :
              IF (e > target) = (Keep = "right") THEN lo' = Mid /\ UNCHANGED hi ELSE hi' = Mid /\ UNCHANGED lo
         /\ UNCHANGED <<curve, target, ph, res>>
Finish == /\ ph = "run" /\ hi - lo <= Width /\ ph' = "done" /\ res' = Mid /\ UNCHANGED <<curve, target, lo, hi>>
Next == Halve \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Narrow == ph = "done" => hi - lo <= 1
(* up to the noise the bracket never loses the target *)
Brackets == curve[lo] >= target - Noise /\ curve[hi] <= target + Noise
(* within a bracket of width one around the result *)
Found == ph = "done" => curve[lo] >= target - Noise /\ curve[hi] <= target + Noise /\ res \in {lo, hi}
Ends == <>(ph = "done")
=============================================================================
