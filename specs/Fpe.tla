-------------------------------- MODULE Fpe ---------------------------------
(* Floating point traps of a thread (C20).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Traps == {"FE_INVALID", "FE_DIVBYZERO", "FE_OVERFLOW", "FE_UNDERFLOW", "FE_INEXACT"}
Bit(t) == CASE t = "FE_INVALID" -> 1 [] t = "FE_DIVBYZERO" -> 4 [] t = "FE_OVERFLOW" -> 8 [] t = "FE_UNDERFLOW" -> 16 [] OTHER -> 32
Of(mask) == {t \in Traps : (mask \div Bit(t)) % 2 = 1}
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Bit(t) + Mask(S \ {t})
Enable(en, mask) == en \cup Of(mask)
Disable(en, mask) == en \ Of(mask)
\* what an operation signals
Signals(op) == CASE op = "zero/zero" -> {"FE_INVALID"} [] op = "sqrt(-1)" -> {"FE_INVALID"} [] op = "one/zero" -> {"FE_DIVBYZERO"}
                 [] op = "huge*huge" -> {"FE_OVERFLOW", "FE_INEXACT"} [] op = "tiny*tiny" -> {"FE_UNDERFLOW", "FE_INEXACT"}
                 [] op = "one/three" -> {"FE_INEXACT"} [] OTHER -> {}
Stopped(en, op) == Signals(op) \cap en # {}
=============================================================================
