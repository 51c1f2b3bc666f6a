-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic for TLC.  A double is the pair <<hi, lo>> of *)
(* its two 32-bit halves (negative zero is normalised to zero).  The       *)
(* operators are Java overrides (F64.java); their TLA+ bodies are only     *)
(* placeholders.                                                           *)
(***************************************************************************)
EXTENDS Integers
LOCAL Undef == CHOOSE x \in {} : TRUE

FAdd(a, b) == Undef
FSub(a, b) == Undef
FMul(a, b) == Undef
FDiv(a, b) == Undef
FNeg(a)    == Undef
FAbs(a)    == Undef
FSqrt(a)   == Undef
FCos(a)    == Undef
FSin(a)    == Undef
FExp(a)    == Undef
FLn(a)     == Undef
FAcos(a)   == Undef
FAtan2(y, x) == Undef
FErf(a)    == Undef          \* standard normal CDF
FLt(a, b)  == Undef
FLe(a, b)  == Undef
FFinite(a) == Undef
FInt(n)    == Undef          \* integer to double
FRound(a)  == Undef          \* double to nearest integer (clipped to 32 bits)
FFloor(a)  == Undef          \* double to integer, rounding down (clipped)
FClose(a, b, tol) == Undef   \* |a-b| <= tol * max(1,|a|,|b|), both finite
FVal(s)    == Undef          \* parse a decimal string
FVals(x)   == Undef          \* parse every numeric string inside a nested value
FStr(a)    == Undef          \* decimal string
FSorted(s) == Undef          \* sorted sequence of doubles
FIsNum(x)  == Undef          \* is x a double (and not some other value)?
FSum(s)    == Undef          \* sum of a sequence of doubles
FEq(a, b)  == a = b
=============================================================================
