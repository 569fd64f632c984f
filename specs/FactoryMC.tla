----------------------------- MODULE FactoryMC ------------------------------
(* All histories over two factories, two keys, two creators; a creation      *)
(* uses the last creator that was accepted, whatever happened to others.     *)
EXTENDS Factory
CONSTANTS Keys, Creators, Depth
VARIABLES reg, want, last
vars == <<reg, want, last>>
F == {1, 2}
Init == reg = [f \in F |-> Nil] /\ want = [f \in F |-> [k \in Keys |-> 0]] /\ last = <<>>
Reg(f, k, c, rep) == /\ reg' = [reg EXCEPT ![f] = Register(@, k, k, c, rep)]
                     /\ want' = [want EXCEPT ![f][k] = IF @ = 0 \/ rep THEN c ELSE @]
                     /\ last' = <<"reg", f, k, Registered(reg[f], k, rep)>>
Create(f, k) == UNCHANGED <<reg, want>> /\ last' = <<"create", f, k, IF Has(reg[f], k) THEN reg[f][k].c ELSE 0>>
Clean(f) == reg' = [reg EXCEPT ![f] = Nil] /\ want' = [want EXCEPT ![f] = [k \in Keys |-> 0]] /\ last' = <<"clean", f, 0, 0>>
Next == \E f \in F : Clean(f) \/ \E k \in Keys : Create(f, k) \/ \E c \in Creators, rep \in BOOLEAN : Reg(f, k, c, rep)
Spec == Init /\ [][Next]_vars
Agrees == \A f \in F : /\ DOMAIN reg[f] = {k \in Keys : want[f][k] # 0}
                       /\ \A k \in DOMAIN reg[f] : reg[f][k].c = want[f][k]
Isolated == [][\A f \in F : (last'[2] # f => reg'[f] = reg[f])]_vars
CreateRight == last # <<>> /\ last[1] = "create" => last[4] = want[last[2]][last[3]]
=============================================================================
