------------------------------ MODULE AdfApiMC ------------------------------
(* All reachable states of AdfApi. *)
EXTENDS AdfApi
Defs == UNION {[1..n -> Kinds] : n \in 0..MaxDefs}
Next == \/ \E m \in Modules : (\E ds \in Defs : Write(m, ds)) \/ Delete(m) \/ Break(m)
        \/ Generate
        \/ Import
Spec == AInit /\ [][Next]_avars
=============================================================================
