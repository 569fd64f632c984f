------------------------------ MODULE UnitsMC -------------------------------
(* The algebra of Units: an abelian group under multiplication, powers are   *)
(* homomorphisms; and the printer/parser pair used for names agrees.         *)
EXTENDS Units, TLC
VARIABLES x, y
S == {One, Base(1), Base(2), Num(<<-2, 1>>), Num(<<10, 1>>), Num(<<3, 4>>), Pow(Num(<<2, 1>>), <<1, 2>>), Mul(Base(3), Ten(-3))}
Init == x \in S /\ y \in S
Es == {<<2, 1>>, <<-1, 1>>, <<1, 3>>, <<-2, 3>>}
Next == \/ \E z \in S : x' = Mul(x, z) /\ y' = y
        \/ \E q \in Es : Root(x, q) /\ x' = Pow(x, q) /\ y' = y
Constr == TLCGet("level") < 3
Spec == Init /\ [][Next]_<<x, y>>
Laws == /\ Mul(x, y) = Mul(y, x) /\ Mul(x, One) = x /\ Mul(x, Inv(x)) = One /\ Div(Mul(x, y), y) = x
        /\ \A z \in {Base(4), Num(<<-3, 2>>)} : Mul(Mul(x, y), z) = Mul(x, Mul(y, z))
        /\ \A q \in Es : Root(x, q) /\ Root(y, q) => Pow(Mul(x, y), q) = Mul(Pow(x, q), Pow(y, q))
        /\ \A q \in Es : \A r \in {<<3, 1>>, <<-1, 1>>} : Root(x, q) => Pow(Pow(x, q), r) = Pow(x, QMul(q, r))
        /\ (x.s > 0 => Pow(Pow(x, <<1, 2>>), <<2, 1>>) = x)
\* the parser inverts the printing rules ("a" denotes x, "b" denotes y)
sym == {<<<<97>>, x>>, <<<<98>>, y>>}
Names == /\ Expr(<<97, 42, 98>>, sym) = {Mul(x, y)}
         /\ Expr(<<40, 97, 47, 98, 41, 47, 97>>, sym) = {Inv(y)}
         /\ Expr(<<97, 47, 40, 97, 42, 98, 41>>, sym) = {Inv(y)}
         /\ Expr(<<107, 97>>, sym) = {Mul(Ten(3), x)}
         /\ Expr(<<107, 97, 94, 50>>, sym) = {Mul(Ten(6), Pow(x, <<2, 1>>))}
         /\ Expr(<<40, 97, 94, 40, 45, 49, 47, 51, 41, 41, 94, 51>>, sym) = {Inv(x)}
         /\ SI(<<49, 48, 94, 45, 51, 32, 97, 32, 98, 94, 50>>, sym) = {Mul(Mul(Ten(-3), x), Pow(y, <<2, 1>>))}
=============================================================================
