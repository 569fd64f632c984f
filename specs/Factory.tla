------------------------------ MODULE Factory -------------------------------
(* Registries of creators, one per factory type (C08).  A registry maps the  *)
(* class of a key (its letters folded where the key type ignores case) to    *)
(* the key as first registered and the creator.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nil == [x \in {} |-> 0]
Register(r, k, key, c, replace) == IF k \in DOMAIN r /\ ~replace THEN r
                                   ELSE (k :> [key |-> IF k \in DOMAIN r THEN r[k].key ELSE key, c |-> c]) @@ r
Registered(r, k, replace) == k \notin DOMAIN r \/ replace
Has(r, k) == k \in DOMAIN r
=============================================================================
