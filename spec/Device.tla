--------------------------------- MODULE Device --------------------------------
(* Device information: two published identifiers, named by device and salt;   *)
(* a private salt, named by device.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Devs, Salts, MaxD, Kinds
VARIABLES ds, act        \* [d, s]; s is a given salt or <<"new", n>>
vars == <<ds, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
N == Len(ds)
Did(v, y, o, nm) == ds' = y /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
Obs == [r |-> TRUE, hides |-> TRUE, apart |-> TRUE, size |-> 32]
Nm(x) == [msg |-> Nb("id", <<"msg", x>>), srv |-> Nb("id", <<"srv", x>>), sys |-> Nb("id", <<"sys", x.d>>), salt |-> Nb("salt", x.s)]
Put(v, x) == N < MaxD /\ Did(v, Append(ds, x), Obs, Nm(x))
New(v) == Put(v, [d |-> v.d, s |-> <<"new", N + 1>>])
Derive(v) == Put(v, [d |-> v.d, s |-> <<"given", v.s>>])
Again(v) == v.i <= N /\ Put(v, [d |-> v.d, s |-> ds[v.i].s])
Copy(v) == v.i <= N /\ Did(v, ds, [r |-> TRUE], Nm(ds[v.i]))
None(v) == Did(v, ds, [r |-> FALSE], NoNm)
I == 1..MaxD
Sets == << [op : {"New"}, d : Devs], [op : {"Derive"}, d : Devs, s : Salts], [op : {"Again"}, d : Devs, i : I], [op : {"Copy"}, i : I], [op : {"None"}, w : {"dev", "both"}] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
SimEvents == {v \in Events : v.op \in {"New", "Derive", "None"} \/ v.i <= N}
Step(v) == CASE v.op = "New" -> New(v) [] v.op = "Derive" -> Derive(v) [] v.op = "Again" -> Again(v) [] v.op = "Copy" -> Copy(v) [] v.op = "None" -> None(v)
Init == ds = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == ds
Next == \E v \in Events : Step(v)
Stable == [][act'.ev.op \in {"New", "Derive", "Again"} => act'.nm.msg.n # act'.nm.srv.n]_vars
================================================================================
