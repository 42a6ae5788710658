---------------------------- MODULE EcdhFaults ----------------------------
(* Ecdh.tla with failing primitives (key agreement encryption).  "Fail" stands for the operation `target` being asked for while
   one of the primitives it needs (random bytes, ciphers, digests, MACs, signatures, key agreement, key
   derivation, key import, allocation inside the crypto library) refuses: whichever it is, the operation is
   refused as a whole, produces nothing, and everything stays as it was ("closed"). *)
EXTENDS Ecdh
CONSTANT FKinds
Broken(z) == {[op |-> "Fail", target |-> w] : w \in {u \in z : u.op \in FKinds}}
FEvents == Events \cup Broken(Events)
FSimEvents == LET se == SimEvents IN se \cup Broken(se)
Breaks(w) == /\ ENABLED Step(w.target)
             /\ UNCHANGED cr
             /\ act' = [ev |-> w, obs |-> [closed |-> TRUE], nm |-> NoNm]
FStep(w) == IF w.op = "Fail" THEN Breaks(w) ELSE Step(w)
FNext == \E w \in FEvents : FStep(w)
Refused == [][act'.ev.op = "Fail" => UNCHANGED cr]_vars
================================================================================
