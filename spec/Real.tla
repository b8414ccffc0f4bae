-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Real numbers for trace specifications, as IEEE-754 doubles.             *)
(*                                                                         *)
(* TLA+ has the reals, TLC does not.  The operators below are evaluated by *)
(* the TLC module override java/UoIReal.java, in the way TLC evaluates     *)
(* Integers; the right-hand sides only declare them.  A real is a pair of  *)
(* 32-bit halves of a double; integers and decimal strings ("0.125",       *)
(* "nan", "inf") are accepted as arguments.                                *)
(***************************************************************************)
LOCAL Undefined == CHOOSE x \in {} : TRUE

RVal(x) == Undefined             \* the real an integer or string denotes
RAdd(x, y) == Undefined
RSub(x, y) == Undefined
RMul(x, y) == Undefined
RDiv(x, y) == Undefined
RNeg(x) == Undefined
RAbs(x) == Undefined
RExp(x) == Undefined
RLn(x) == Undefined
RSqrt(x) == Undefined
RFloor(x) == Undefined
RLt(x, y) == Undefined           \* FALSE if either is not a number
RLeq(x, y) == Undefined
REq(x, y) == Undefined           \* equal, or both not a number
RIsFinite(x) == Undefined
RClose(x, y, rtol, atol) == Undefined   \* |x - y| <= atol + rtol * max(|x|, |y|)
RSum(s) == Undefined             \* of a sequence
RDot(s, t) == Undefined          \* of two sequences of the same length
Eager(s) == s                    \* the same sequence (of sequences), evaluated at once
RShow(x) == Undefined            \* a string
RToInt(x) == Undefined           \* the nearest integer
=============================================================================
