------------------------------- MODULE ObjectsErase -------------------------------
(* Objects.tla, watching the memory that is released.  Whatever becomes of an *)
(* object, every secret in it is known to the observer, and none is left in   *)
(* the memory that an operation gives back: neither the object's own when it  *)
(* goes nor what the operation needed for a while.                            *)
EXTENDS Objects, Erase
CONSTANT Silent        \* the operations this holds for
EEvents == Events
ESimEvents == SimEvents
EStep(v) == Step(v)
ENext == Next
Held(o) == UNION {IF o[i].k \in DOMAIN SecretOf THEN {Left(o[i].k, p) : p \in SecretOf[o[i].k] \cap DOMAIN o[i].m} ELSE {} : i \in Slots}
EAct == [ev |-> act'.ev, obs |-> IF act'.ev.op \in Silent THEN [x \in Held(ob) \cup Held(ob') |-> FALSE] @@ [asked |-> TRUE] ELSE [asked |-> TRUE], nm |-> NoNm]
\* what is secret is part of the object
Known == \A i \in Slots : ob[i].k \in DOMAIN SecretOf => SecretOf[ob[i].k] \subseteq Paths[ob[i].k]
================================================================================
