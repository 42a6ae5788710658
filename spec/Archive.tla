------------------------------- MODULE Archive ---------------------------------
(* What an earlier build of the library wrote, read by this one.  Three        *)
(* devices (A1 and A2 of one account, B1 of another) left their contexts,      *)
(* exports, stored data, messages, stream packets, files and signatures; a     *)
(* reader restores contexts on any device and opens what it likes with them.   *)
(* The outcome is the one the earlier build would have had.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxHeld, Kinds
VARIABLES held, last, tp, act
vars == <<held, last, tp, act>>
Cx == {"A1", "A2", "B1"}
Acct(c) == IF c = "B1" THEN "B" ELSE "A"
Home(c) == CASE c = "A1" -> "d1" [] c = "A2" -> "d2" [] c = "B1" -> "d3"
Devs == {"d1", "d2", "d3"}
From(m) == IF m = "n4" THEN "B1" ELSE "A1"
To(m) == CASE m = "m2" -> {"B1"} [] m = "n4" -> {"A1"} [] OTHER -> {"A2", "B1"}
Msgs == {"m2", "m3", "m4", "n4"}
Pkts == {1, 2, 3, 5, 8, 20}
Digs == {"256", "384", "512"}
Seals == {"s17", "s18", "s19", "s20"}
Kdfs == Seals \cup {"b15", "h256", "h384", "h512"}
Facts == {<<"di", d>> : d \in Devs} \cup {<<x, d>> : x \in {"dg", "hm"}, d \in Digs} \cup {<<"kd", k>> : k \in Kdfs} \cup {<<"ss", "">>, <<"fp", "pair">>}
         \cup {<<"fp", k \o c \o l>> : k \in {"ex ", "ey "}, c \in {"b32 ", "hex "}, l \in {"long", "short"}} \cup {<<"evo", "2">>, <<"evo", "9">>}
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
No == [r |-> FALSE]
N == Len(held)
H == 1..MaxHeld
Did(v, h, l, o, nm) == held' = h /\ last' = l /\ tp' = tp /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
See(v, o, nm) == Did(v, held, last, o, nm)
Nm(x) == [root |-> Nb("sig", x.acct), rpri |-> Nb("sigpri", x.acct), node |-> Nb("node", x.node), npri |-> Nb("nodepri", x.node), local |-> Nb("lk", x.lk), remote |-> Nb("rs", x.acct), dev |-> Nb("dev", x.dev)]
Hold(v, x) == Did(v, Append(held, x), last, [r |-> TRUE, valid |-> TRUE], Nm(x))
As(c, d) == [node |-> c, acct |-> Acct(c), dev |-> d, lk |-> <<Acct(c), Home(c)>>]
Room == N < MaxHeld
Ser(v) == Room /\ Hold(v, As(v.c, v.d))
Imp(v) == Room /\ (IF v.p = v.c THEN Hold(v, As(v.c, v.d)) ELSE See(v, No, NoNm))
Keys(v) == IF v.p = v.c THEN See(v, [r |-> TRUE], [local |-> Nb("lk", <<Acct(v.c), Home(v.c)>>), remote |-> Nb("rs", Acct(v.c))]) ELSE See(v, No, NoNm)
\* A1's account, recovered onto a device: a new node of it
Rec(v) == Room /\ Hold(v, [node |-> "new" \o ToString(N), acct |-> "A", dev |-> v.d, lk |-> <<"A", v.d>>])
Chain(v) == See(v, [r |-> TRUE, valid |-> TRUE], NoNm)
Read(v) == LET x == held[v.h] IN
    See(v, IF (IF v.w = "local" THEN x.lk = <<Acct(v.c), Home(v.c)>> ELSE x.acct = Acct(v.c)) THEN [r |-> TRUE, same |-> TRUE] ELSE No, NoNm)
Open(v) == LET x == held[v.h]
               parse == IF v.cl # From(v.m) THEN "invalid/mac" ELSE IF x.node \notin To(v.m) THEN "valid/notforme" ELSE "valid/ok"
               ok == parse = "valid/ok" /\ v.k = x.node /\ x.dev = Home(x.node)
           IN See(v, [parse |-> parse, dec |-> IF parse # "valid/ok" THEN "null" ELSE IF ok THEN "ok" ELSE "kex", whole |-> TRUE], NoNm)
Next1(v) == IF v.n > last THEN Did(v, held, v.n, [r |-> TRUE, same |-> TRUE], NoNm) ELSE See(v, No, NoNm)
File(v) == See(v, [r |-> v.k = "fkey", whole |-> TRUE], NoNm)
Text(v) == See(v, IF (v.x = "gcm" => v.a) /\ (v.x = "ctr" => ~v.a) THEN [r |-> TRUE, same |-> TRUE] ELSE No, NoNm)
Verify(v) == See(v, [r |-> v.k = "A1" /\ v.b = "body"], NoNm)
Unseal(v) == See(v, IF v.p = "A2" THEN [r |-> TRUE, same |-> TRUE] ELSE No, NoNm)
Agree(v) == See(v, IF v.k = "ey" /\ v.i = "body" THEN [r |-> TRUE, same |-> TRUE] ELSE No, NoNm)
Fact(v) == See(v, [same |-> TRUE], NoNm)
\* the recorded end of a connection is played by an endpoint with the identity and the ephemeral key it had then
Tp(v, t, got) == held' = held /\ last' = last /\ tp' = t /\ act' = [ev |-> v, obs |-> [st |-> t.st, got |-> got, same |-> TRUE], nm |-> NoNm]
Broken(v) == Tp(v, [tp EXCEPT !.st = "ERROR"], FALSE)
Begin(v) == IF tp.st = "NONE" THEN Tp(v, [tp EXCEPT !.st = "INIT"], FALSE) ELSE Broken(v)
Answer(v) == IF tp.st = "INIT" THEN Tp(v, [tp EXCEPT !.st = "ACTIVE"], FALSE) ELSE Broken(v)
Data(v) == IF tp.st = "ACTIVE" /\ v.n > tp.n THEN Tp(v, [tp EXCEPT !.n = v.n], TRUE) ELSE Broken(v)
Anew(v) == Tp(v, [st |-> "NONE", n |-> 0], FALSE)
Events == {v \in
    [op : {"Ser"}, c : Cx, d : Devs] \cup [op : {"Imp", "Keys"}, c : Cx, p : Cx, d : Devs] \cup [op : {"Rec"}, by : {"key", "pass"}, d : Devs] \cup [op : {"Chain"}, c : Cx]
    \cup [op : {"Read"}, h : 1..N, c : Cx, w : {"local", "remote"}] \cup [op : {"Open"}, h : 1..N, m : Msgs, k : Cx, cl : Cx]
    \cup [op : {"Next1"}, n : Pkts] \cup [op : {"File"}, k : {"fkey", "ckey", "other"}] \cup [op : {"Text"}, x : {"gcm", "ctr"}, a : BOOLEAN]
    \cup [op : {"Verify"}, g : Digs, k : {"A1", "A2"}, b : {"body", "tag"}] \cup [op : {"Unseal"}, k : Seals, p : Cx] \cup [op : {"Agree"}, k : {"ex", "ey"}, i : {"body", "tag"}]
    \cup [op : {"Begin", "Answer", "Anew"}] \cup [op : {"Data"}, n : 1..6]
    \cup [op : {"Fact"}, f : Facts] : v.op \in Kinds}
SimEvents == Events
Step(v) == CASE v.op = "Ser" -> Ser(v) [] v.op = "Imp" -> Imp(v) [] v.op = "Keys" -> Keys(v) [] v.op = "Rec" -> Rec(v) [] v.op = "Chain" -> Chain(v) [] v.op = "Read" -> Read(v) [] v.op = "Open" -> Open(v)
    [] v.op = "Next1" -> Next1(v) [] v.op = "File" -> File(v) [] v.op = "Text" -> Text(v) [] v.op = "Verify" -> Verify(v) [] v.op = "Unseal" -> Unseal(v) [] v.op = "Agree" -> Agree(v) [] v.op = "Fact" -> Fact(v)
    [] v.op = "Begin" -> Begin(v) [] v.op = "Answer" -> Answer(v) [] v.op = "Data" -> Data(v) [] v.op = "Anew" -> Anew(v)
Init == held = <<>> /\ last = 0 /\ tp = [st |-> "NONE", n |-> 0] /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<held, last, tp>>
Next == \E v \in Events : Step(v)
\* whoever reads what was kept or sent then is who could have read it then
Entitled == [][(act'.ev.op = "Open" /\ act'.obs.dec = "ok") => held[act'.ev.h].node \in To(act'.ev.m) /\ held[act'.ev.h].dev = Home(held[act'.ev.h].node)]_vars
Continued == [][(act'.ev.op = "Data" /\ act'.obs.got) => tp.st = "ACTIVE" /\ tp'.n > tp.n]_vars
Lasting == \A i \in 1..N : held[i].acct \in {"A", "B"} /\ held[i].lk[1] = held[i].acct
================================================================================
