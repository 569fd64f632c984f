-------------------------------- MODULE Yaml --------------------------------
(* What the text of a YAML document denotes as a tree of parameters (C06).   *)
(* Documents are trees of maps, sequences and scalars; text is a sequence of *)
(* character codes.                                                          *)
EXTENDS ParamList, Text
IsDig(c) == c >= 48 /\ c <= 57
Digits(s) == \A i \in DOMAIN s : IsDig(s[i])
Lower(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Max31 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
Max31n == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
RECURSIVE Strip0(_)
Strip0(s) == IF s # <<>> /\ Head(s) = 48 THEN Strip0(Tail(s)) ELSE s
RECURSIVE Drop0(_)
Drop0(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN Drop0(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LeqText(_, _)
LeqText(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LeqText(Tail(a), Tail(b)))
Neg(s) == s # <<>> /\ s[1] = 45
Abs(s) == IF Neg(s) THEN Tail(s) ELSE s
IsBool(s) == Lower(s) \in {True, False}
IsInt(s) == Abs(s) # <<>> /\ Digits(Abs(s)) /\ LeqText(Strip0(Abs(s)), IF Neg(s) THEN Max31n ELSE Max31)
IntText(s) == LET d == Strip0(Abs(s)) IN IF d = <<>> THEN <<48>> ELSE IF Neg(s) THEN <<45>> \o d ELSE d
\* ---- reals: [+-] digits [. digits] [e [+-] digits]
FirstOf(s, C) == LET P == {i \in DOMAIN s : s[i] \in C} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Mant(s) == LET u == Unsigned(s) e == FirstOf(u, {101, 69}) IN IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
HasExp(s) == FirstOf(Unsigned(s), {101, 69}) # 0
Expo(s) == LET u == Unsigned(s) IN SubSeq(u, FirstOf(u, {101, 69}) + 1, Len(u))
IntPart(m) == LET p == FirstOf(m, {46}) IN IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
FracPart(m) == LET p == FirstOf(m, {46}) IN IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m))
RealForm(s) == /\ Digits(IntPart(Mant(s))) /\ Digits(FracPart(Mant(s)))
               /\ Len(IntPart(Mant(s))) + Len(FracPart(Mant(s))) > 0
               /\ HasExp(s) => Unsigned(Expo(s)) # <<>> /\ Digits(Unsigned(Expo(s)))
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
\* a value as sign, significant digits and the exponent of 0.ddd
Dec(s) ==
  LET all == IntPart(Mant(s)) \o FracPart(Mant(s))
      lead == Len(all) - Len(Strip0(all))
      ex == IF ~HasExp(s) THEN 0 ELSE IF Neg(Expo(s)) THEN -NumOf(Unsigned(Expo(s))) ELSE NumOf(Unsigned(Expo(s)))
      d == Drop0(Strip0(all))
  IN [neg |-> Neg(s), d |-> d, e |-> IF d = <<>> THEN 0 ELSE Len(IntPart(Mant(s))) - lead + ex]
\* numbers too large to be represented are not reals
IsReal(s) == RealForm(s) /\ Dec(s).e <= 308
Fits(s, ty) == CASE ty = "b" -> IsBool(s) [] ty = "i" -> IsInt(s) [] ty = "d" -> IsReal(s) [] OTHER -> TRUE
Plain(s) == IF IsBool(s) THEN "b" ELSE IF IsInt(s) THEN "i" ELSE IF IsReal(s) THEN "d" ELSE "s"
TagTy(tag) == CASE tag = "bool" -> "b" [] tag = "int" -> "i" [] tag = "float" -> "d" [] tag \in {"!", "str"} -> "s" [] OTHER -> "none"
\* the type of a scalar; "error" when its tag rejects its text
ScTy(n) == IF n.tag = "?" THEN Plain(n.c)
           ELSE IF TagTy(n.tag) = "none" \/ ~Fits(n.c, TagTy(n.tag)) THEN "error" ELSE TagTy(n.tag)
\* the value stored, in the form the trace shows it
ShowEq(ty, text, shown) ==
  CASE ty = "b" -> shown = Lower(text)
    [] ty = "i" -> shown = IntText(text)
    [] ty = "d" -> Dec(shown) = Dec(text)
    [] OTHER -> shown = text
EntTy(n) == IF n.k = "null" THEN "s" ELSE IF n.k # "sc" THEN "error" ELSE ScTy(n)
SeqTy(e) == LET T == {EntTy(e[i]) : i \in DOMAIN e}
            IN IF e = <<>> THEN "es" ELSE IF "error" \in T THEN "error"
               ELSE IF T = {"b"} THEN "vb" ELSE IF T = {"i"} THEN "vi"
               ELSE IF T \subseteq {"i", "d"} THEN "vd" ELSE "vs"
NullText == <<110, 117, 108, 108>>
EntText(n) == IF n.k = "null" THEN NullText ELSE n.c
ElemTy(ty) == CASE ty = "vb" -> "b" [] ty = "vi" -> "i" [] ty = "vd" -> "d" [] OTHER -> "s"
\* is the document rejected?
RECURSIVE Bad(_)
Bad(n) == CASE n.k = "map" -> \E i \in DOMAIN n.e : Bad(n.e[i].v)
            [] n.k = "seq" -> SeqTy(n.e) = "error"
            [] n.k = "sc" -> ScTy(n) = "error"
            [] OTHER -> FALSE
\* does the list dumped hold what the map denotes? Entries without a value are left out.
RECURSIVE Denotes(_, _)
Denotes(n, d) ==
  LET key(i) == n.e[i].key
      P == {i \in DOMAIN n.e : n.e[i].v.k \in {"sc", "seq"}}
      S == {i \in DOMAIN n.e : n.e[i].v.k = "map"}
  IN /\ DOMAIN d = {"n", "p", "s"}
     /\ DOMAIN d.p = {key(i) : i \in P} /\ DOMAIN d.s = {key(i) : i \in S}
     /\ \A i \in P : LET x == n.e[i].v g == d.p[key(i)] IN
          IF x.k = "sc" THEN g.ty = ScTy(x) /\ Len(g.v) = 1 /\ ShowEq(g.ty, x.c, g.v[1])
          ELSE /\ g.ty = SeqTy(x.e) /\ Len(g.v) = Len(x.e)
               /\ \A j \in DOMAIN x.e : ShowEq(ElemTy(g.ty), EntText(x.e[j]), g.v[j])
     /\ \A i \in S : d.s[key(i)].n = key(i) /\ Denotes(n.e[i].v, d.s[key(i)])
\* ---- what writing and reading back keeps (C07)
Writable(v) == v.ty \in {"i", "d", "s", "b", "vi", "vd", "vs", "vb", "es"}
RECURSIVE AllWritable(_)
AllWritable(t) == (\A k \in DOMAIN t.p : Writable(t.p[k])) /\ (\A k \in DOMAIN t.s : AllWritable(t.s[k]))
\* an empty array comes back as the empty sequence, which reads as an array of any type; lists are named by their key
Back(v) == IF v.ty \in {"vi", "vd", "vs", "vb"} /\ v.v = <<>> THEN [ty |-> "es", v |-> <<>>] ELSE v
RECURSIVE ReadBack(_, _)
ReadBack(t, name) == [n |-> name, p |-> [k \in DOMAIN t.p |-> Back(t.p[k])], s |-> [k \in DOMAIN t.s |-> ReadBack(t.s[k], k)]]
=============================================================================
