------------------------------- MODULE YamlMC -------------------------------
(* Laws of the scalar grammar over every short text, and of sequences of     *)
(* scalars over a small set of texts.                                        *)
EXTENDS Yaml, TLC
CONSTANTS N
Sigma == {45, 43, 46, 48, 49, 57, 101, 116}
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Sigma : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Sc(x, tag) == [k |-> "sc", tag |-> tag, c |-> x]
Printed(ty, x) == CASE ty = "b" -> Lower(x) [] ty = "i" -> IntText(x) [] OTHER -> x
Laws ==
  LET ty == Plain(s) IN
  /\ Fits(s, ty) /\ ShowEq(ty, s, Printed(ty, s))
  \* an int denotes the same real number, a boolean is no number
  /\ IsInt(s) => IsReal(s) /\ Dec(s).d = Dec(IntText(s)).d /\ Dec(s).e = Dec(IntText(s)).e
  /\ IsInt(s) => IsInt(IntText(s)) /\ IntText(IntText(s)) = IntText(s)
  /\ IsBool(s) => ~IsReal(s)
  \* quoting makes text of anything; a tag never changes a text it accepts
  /\ ScTy(Sc(s, "!")) = "s"
  /\ \A t \in {"int", "bool", "float"} : ScTy(Sc(s, t)) \in {TagTy(t), "error"}
  /\ ScTy(Sc(s, "?")) = "i" => ScTy(Sc(s, "int")) = "i" /\ ScTy(Sc(s, "float")) = "d"
  \* appending an exponent of zero, or a zero after the last decimal, changes no value
  /\ RealForm(s) /\ ~HasExp(s) => Dec(s \o <<101, 48>>) = Dec(s)
  /\ RealForm(s) /\ ~HasExp(s) /\ FirstOf(s, {46}) # 0 => Dec(s \o <<48>>) = Dec(s)
  /\ LET one == Sc(<<49>>, "?") half == Sc(<<46, 53>>, "?") tr == Sc(True, "?") me == Sc(s, "?") IN
     /\ SeqTy(<<me>>) = "v" \o ty
     /\ SeqTy(<<one, me>>) = SeqTy(<<me, one>>)
     /\ SeqTy(<<one, me>>) = IF ty = "i" THEN "vi" ELSE IF ty = "d" THEN "vd" ELSE "vs"
     /\ SeqTy(<<half, me, one>>) = IF ty \in {"i", "d"} THEN "vd" ELSE "vs"
     /\ SeqTy(<<tr, me>>) = IF ty = "b" THEN "vb" ELSE "vs"
=============================================================================
