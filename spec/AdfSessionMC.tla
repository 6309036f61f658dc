---------------------------- MODULE AdfSessionMC ----------------------------
(* All reachable states of AdfSession, over histories of any length. *)
EXTENDS AdfSession
Init == SInit
Next == \/ \E s \in Slots : \/ \E d \in Docs : Parse(s, d)
                            \/ \E s2 \in Slots : Again(s, s2) \/ Back(s, s2)
                            \/ SerializeS(s) \/ RenderS(s, "s") \/ RenderS(s, "g") \/ Look(s) \/ Parts(s)
                            \/ Use(s) \/ CutUse(s)
                            \/ MutIn(s) \/ MutOut(s) \/ Assign(s)
        \/ \E d \in Docs : Once(d) \/ CutOnce(d)
        \/ \E b \in BadDocs : Fail(b)
        \/ \E v \in BOOLEAN : Toggle(v)
Spec == Init /\ [][Next]_svars
=============================================================================
