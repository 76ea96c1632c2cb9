--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact rational arithmetic for the specifications of this directory.     *)
(*                                                                         *)
(* A number is a string (see java/Rat.java for the accepted spellings); a  *)
(* vector is a sequence of numbers and a matrix a sequence of rows.  TLC   *)
(* has neither fractions nor unbounded integers, so the operators below    *)
(* are evaluated by the Java module override java/Rat.java.  What the      *)
(* override must compute is stated in RatTest.tla, which TLC checks: the   *)
(* scalar operators against the integer definitions of fractions, and the  *)
(* vector and matrix operators against their definitions by scalar ones.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Never evaluated: replaced by the Java override.  The bodies only give
\* the operators a value SANY accepts.
RFin(a)      == CHOOSE v \in BOOLEAN : TRUE   \* not NaN and not infinite
RNorm(a)     == a                             \* canonical spelling
RFrac(a, b)  == <<a, b>>                      \* a / b (integers or numbers)
RAdd(a, b)   == <<a, b>>
RSub(a, b)   == <<a, b>>
RMul(a, b)   == <<a, b>>
RDiv(a, b)   == <<a, b>>
RNeg(a)      == a
RAbs(a)      == a
RLeq(a, b)   == CHOOSE v \in BOOLEAN : TRUE
RLt(a, b)    == CHOOSE v \in BOOLEAN : TRUE
REq(a, b)    == CHOOSE v \in BOOLEAN : TRUE
RSqrt(a)     == a                             \* lower approximation, 2^-100
RTrim(a)     == a                             \* rounded to about 200 bits
RShow(a)     == a                             \* decimal, for messages

VFin(a)      == CHOOSE v \in BOOLEAN : TRUE
VAdd(a, b)   == <<a, b>>
VSub(a, b)   == <<a, b>>
VScale(c, a) == <<c, a>>
VDot(a, b)   == <<a, b>>
VSum(a)      == a
VMaxAbs(a)   == a
VMax(a)      == a
VMin(a)      == a

MFin(a)      == CHOOSE v \in BOOLEAN : TRUE
MAdd(a, b)   == <<a, b>>
MSub(a, b)   == <<a, b>>
MScale(c, a) == <<c, a>>
MT(a)        == a
MMul(a, b)   == <<a, b>>
MDot(a, b)   == <<a, b>>                      \* sum of entrywise products
MTrace(a)    == a
MSum(a)      == a
MMaxAbs(a)   == a
MTrim(a)     == a                             \* RTrim of every entry
MSolve(a, b) == <<a, b>>                      \* a^-1 b, <<>> if a is singular

Zero == "0"
One  == "1"
Two  == "2"

RMin(a, b) == IF RLeq(a, b) THEN a ELSE b
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a

\* |a - b| <= tol
RNear(a, b, tol) == RLeq(RAbs(RSub(a, b)), tol)
VNear(a, b, tol) == Len(a) = Len(b) /\ RLeq(VMaxAbs(VSub(a, b)), tol)
SameShape(a, b)  == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i])
MNear(a, b, tol) == SameShape(a, b) /\ RLeq(MMaxAbs(MSub(a, b)), tol)
IsShape(a, n, m) == Len(a) = n /\ \A i \in 1..n : Len(a[i]) = m

\* rows lo..hi of a matrix
Rows(a, lo, hi) == SubSeq(a, lo, hi)
==============================================================================
