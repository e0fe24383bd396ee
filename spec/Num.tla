-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers.                                                                *)
(*                                                                         *)
(* The abstract state of lfa is made of real numbers.  A number is         *)
(* represented here by a numeral: a string holding a decimal ("-0.25",     *)
(* "1e-7", ...) or one of the IEEE special values "NaN", "inf", "-inf".    *)
(* Val(a) below is the real number a numeral denotes; every operator is    *)
(* defined by what its result denotes.  TLC evaluates them with the Java   *)
(* module override lfa.Num (java/lfa/Num.java): decimal arithmetic with 60 *)
(* significant digits, and IEEE-754 rules when an operand is special.      *)
(* Numerals returned by the operators are canonical, so for results the    *)
(* equality of strings is the equality of numbers (to 60 digits).          *)
(***************************************************************************)
EXTENDS Reals, Sequences

\* The real number a numeral denotes; the operators below are specified through
\* it and evaluated by the override, so TLC never evaluates Val itself.
LOCAL Val(a) == CHOOSE r \in Real : TRUE
LOCAL Denotes(p(_)) == CHOOSE c \in STRING : p(c)

Canon(a)    == LET p(c) == Val(c) = Val(a)               IN Denotes(p)
Add(a, b)   == LET p(c) == Val(c) = Val(a) + Val(b)      IN Denotes(p)
Sub(a, b)   == LET p(c) == Val(c) + Val(b) = Val(a)      IN Denotes(p)
Mul(a, b)   == LET p(c) == Val(c) = Val(a) * Val(b)      IN Denotes(p)
Div(a, b)   == LET p(c) == Val(c) * Val(b) = Val(a)      IN Denotes(p)
Sqrt(a)     == LET p(c) == Val(c) >= 0 /\ Val(c) * Val(c) = Val(a) IN Denotes(p)
PowN(a, n)  == LET p(c) == Val(c) = Val(a) ^ n           IN Denotes(p)
OfInt(i)    == LET p(c) == Val(c) = i                    IN Denotes(p)
ToInt(a)    == CHOOSE i \in Int : i = Val(a)
FloorN(a)   == LET p(c) == Val(c) \in Int /\ Val(c) <= Val(a) /\ Val(a) < Val(c) + 1 IN Denotes(p)
ModN(a, b)  == LET p(c) == Val(c) = Val(a) % Val(b)      IN Denotes(p)
Lt(a, b)    == Val(a) < Val(b)
Le(a, b)    == Val(a) <= Val(b)
IsFinite(a) == a \notin {"NaN", "inf", "-inf"}

(* exp, cos, ln and pi are the usual functions of real analysis.           *)
Exp(a)      == CHOOSE c \in STRING : TRUE
Cos(a)      == CHOOSE c \in STRING : TRUE
Ln(a)       == CHOOSE c \in STRING : TRUE
Pi          == CHOOSE c \in STRING : TRUE

---------------------------------------------------------------------------
Neg(a)      == Sub("0", a)
Abs(a)      == IF Lt(a, "0") THEN Neg(a) ELSE Canon(a)
MaxN(a, b)  == IF Lt(a, b) THEN Canon(b) ELSE Canon(a)
MinN(a, b)  == IF Lt(b, a) THEN Canon(b) ELSE Canon(a)
EqN(a, b)   == IF IsFinite(a) /\ IsFinite(b) THEN Le(a, b) /\ Le(b, a) ELSE a = b
IsZero(a)   == EqN(a, "0")

(* |a - b| <= 1e-9 * max(|b|, scale): the allowance for f64 rounding.  The *)
(* implementation works with 2^-53 ~ 1e-16, so this leaves room for seven  *)
(* digits of cancellation and reordering, while a wrong term, index,       *)
(* factor or epsilon shows.                                                *)
Close(a, b, scale) ==
  IF IsFinite(a) /\ IsFinite(b)
  THEN Le(Abs(Sub(a, b)), Add(Mul("1e-9", MaxN(Abs(b), scale)), "1e-290"))
  ELSE a = b

\* a function is a function; the override makes TLC evaluate it once instead of at every application
Strict(f) == f

RECURSIVE SumUpTo(_, _)
SumUpTo(s, k) == IF k = 0 THEN "0" ELSE Add(SumUpTo(s, k - 1), s[k])
SumN(s)       == SumUpTo(s, Len(s))
RECURSIVE MaxUpTo(_, _)
MaxUpTo(s, k) == IF k = 0 THEN "0" ELSE MaxN(MaxUpTo(s, k - 1), Abs(s[k]))
MaxAbs(s)     == MaxUpTo(s, Len(s))
RECURSIVE ProdUpTo(_, _)
ProdUpTo(s, k) == IF k = 0 THEN "1" ELSE Mul(ProdUpTo(s, k - 1), s[k])
ProdN(s)       == ProdUpTo(s, Len(s))
=============================================================================
