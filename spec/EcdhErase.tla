------------------------------- MODULE EcdhErase -------------------------------
(* Ecdh.tla, watching the memory that is released (key agreement): what
   an operation in Silent gives back holds none of the secrets it worked with, neither those of the
   objects there are before or after it nor those its primitives were given or gave. *)
EXTENDS Ecdh, Erase
CONSTANT Silent        \* operation -> "all", "keys" or "engine", see Erase.tla
EEvents == Events
ESimEvents == SimEvents
EStep(v) == Step(v)
ENext == Next
EAct == [ev |-> act'.ev, obs |-> IF act'.ev.op \in DOMAIN Silent THEN ObsOf[Silent[act'.ev.op]] ELSE [asked |-> TRUE], nm |-> NoNames]
================================================================================
