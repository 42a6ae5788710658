------------------------------- MODULE Packet -------------------------------
(* Message packets: senders encode for recipient nodes, the adversary changes *)
(* bytes, splices packets, or - as a member with a signing key of its own -   *)
(* assembles new packets from the parts of others; anybody parses any packet  *)
(* against any claimed sender and decodes it with any context and key.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Ctx,            \* contexts
          Acct, Node, Dev,\* [Ctx -> account, node identity, device]; contexts may share them
          Keys,           \* ephemeral keys: <<ctx, number>>
          Senders, Rcpts, \* recipient lists: sequences of [c, k, d, a, bad]: node of c, its key k, on the device of d, vouched for by the root of a
          Vers,           \* versions senders are told to use
          Claims,         \* [rk, rid, n]: root key of rk, root identifier of rid, node of n
          Apis, Ways, HModes, PModes, FVers, MaxPk, MaxGen, Kinds,
          Loose           \* FALSE: only the newest packet is opened, and only by contexts with their own keys
VARIABLES pk, act
vars == <<pk, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
N == Len(pk)
Supported == 2..4
NoSet == [ok |-> FALSE, hk |-> <<"", "">>, eph |-> 0, rc |-> <<>>]
NoPay == [t |-> "junk", key |-> 0, body |-> 0]
Did(v, y, o, nm) == pk' = y /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
--------------------------------------------------------------------------------
\* what each recipient's entry holds: who can find it, and what it takes to open it
Entry(d, s, ver, key) == [n |-> Node[d.c], kid |-> <<d.c, d.k>>,
                          m |-> [k |-> <<d.c, d.k>>, dev |-> Dev[d.d], root |-> Acct[d.a], snd |-> Acct[s], ver |-> ver, key |-> key]]
Encode(v) ==
    LET r == v.r  i == N + 1
        good == Len(r) > 0 /\ (\A j \in 1..Len(r) : r[j].bad = "") /\ v.ver \in Supported
    IN IF ~good THEN Did(v, pk, [r |-> FALSE], NoNm)
       ELSE /\ N < MaxPk /\ Cardinality({j \in 1..N : pk[j].gen}) < MaxGen
            /\ Did(v, Append(pk, [ok |-> TRUE, mis |-> FALSE, gen |-> TRUE, sig |-> Node[v.s], orig |-> i, ver |-> v.ver,
                                 hdr |-> [ok |-> TRUE, hk |-> <<Acct[v.s], Node[v.s]>>, eph |-> i, rc |-> [j \in 1..Len(r) |-> Entry(r[j], v.s, v.ver, i)]],
                                 pay |-> [t |-> "ok", key |-> i, body |-> i]]),
                  [r |-> TRUE, n |-> Len(r), ver |-> v.ver, auth |-> TRUE, sealed |-> TRUE, leak |-> FALSE, reuse |-> FALSE],
                  [key |-> Nb("key", i), eph |-> Nb("eph", i), hiv |-> Nb("iv", <<i, "h">>), piv |-> Nb("iv", <<i, "p">>), hdr |-> Nb("enc", <<i, "h">>), pay |-> Nb("enc", <<i, "p">>)])
Sound(p) == p.ok /\ ~p.mis /\ p.sig # "bad"
\* ---- changes to the bytes
Lab(w) == CASE w = "v2" -> 2 [] w = "v3" -> 3 [] w = "v4" -> 4 [] OTHER -> 0
Tamper(v) ==
    LET p == pk[v.p]  w == v.w
        y == CASE w = "content" -> [p EXCEPT !.sig = "bad", !.orig = N + 1]
               [] w = "sig" -> [p EXCEPT !.sig = "bad"]
               [] w \in {"v2", "v3", "v4"} -> [p EXCEPT !.ver = Lab(w)]
               [] w = "vbad" -> [p EXCEPT !.ok = FALSE]
               [] w = "curve" -> [p EXCEPT !.ok = FALSE]
               [] w = "hi" -> IF p.ver = 2 THEN p ELSE [p EXCEPT !.ok = FALSE]
               [] w = "cut" -> [p EXCEPT !.ok = FALSE]
               [] w \in {"trunc", "ext", "mid"} -> [p EXCEPT !.mis = TRUE]
               [] w = "round" -> p
    IN /\ v.p <= N /\ N < MaxPk /\ Sound(p) /\ p.hdr.ok /\ (w \in {"v2", "v3", "v4"} => Lab(w) # p.ver)
       /\ Did(v, Append(pk, [y EXCEPT !.gen = FALSE]), [r |-> TRUE], NoNm)
Splice(v) ==
    LET p == pk[v.p]  q == pk[v.q] IN
    /\ v.p <= N /\ v.q <= N /\ v.p # v.q /\ N < MaxPk /\ Sound(p) /\ Sound(q) /\ p.hdr.ok /\ q.hdr.ok
    /\ Did(v, Append(pk, [p EXCEPT !.gen = FALSE, !.sig = IF p.orig = q.orig THEN q.sig ELSE "bad"]), [r |-> TRUE], NoNm)
\* ---- a member signs what it likes
Forge(v) ==
    LET a == pk[v.a]  b == pk[v.b]  me == <<Acct[v.s], Node[v.s]>>
        rc == a.hdr.rc
        sw == IF Len(rc) < 2 THEN rc ELSE [rc EXCEPT ![1].m = rc[2].m, ![2].m = rc[1].m]
        h == CASE v.h = "of" -> a.hdr [] v.h = "rekey" -> [a.hdr EXCEPT !.hk = me] [] v.h = "swap" -> [a.hdr EXCEPT !.hk = me, !.rc = sw] [] OTHER -> NoSet
        y == CASE v.y = "of" -> b.pay [] v.y = "junk" -> NoPay [] OTHER -> [b.pay EXCEPT !.t = "bad"]
    IN /\ v.a <= N /\ v.b <= N /\ N < MaxPk /\ Sound(a) /\ Sound(b) /\ a.hdr.ok /\ b.pay.t = "ok"
       /\ Did(v, Append(pk, [ok |-> TRUE, mis |-> FALSE, gen |-> FALSE, sig |-> Node[v.s], orig |-> N + 1, ver |-> v.ver, hdr |-> h, pay |-> y]), [r |-> TRUE], NoNm)
\* ---- and content that is no packet at all, properly signed
Junk(v) == N < MaxPk /\ Did(v, Append(pk, [ok |-> TRUE, mis |-> FALSE, gen |-> FALSE, sig |-> IF v.g = "512" THEN Node[v.s] ELSE "none", orig |-> N + 1, ver |-> 4, hdr |-> NoSet, pay |-> NoPay]), [r |-> TRUE], NoNm)
--------------------------------------------------------------------------------
Find(p, c) == LET S == {j \in 1..Len(p.hdr.rc) : p.hdr.rc[j].n = Node[c]} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : j <= i
Parse(p, v) ==
    CASE ~p.ok \/ p.sig = "none" -> "none"
      [] p.mis -> "refused"
      [] p.sig # Node[v.cl.n] -> "invalid/mac"
      [] ~p.hdr.ok \/ p.hdr.hk # <<Acct[v.cl.rid], Node[v.cl.n]>> -> "valid/corrupt"
      [] v.api # "nodecode" /\ Find(p, v.c) = 0 -> "valid/notforme"
      [] p.pay.t = "junk" -> "valid/corrupt"
      [] OTHER -> "valid/ok"
Opens(p, v) ==   \* given that it parses
    /\ v.api # "nodecode"
    /\ LET m == p.hdr.rc[Find(p, v.c)].m IN
       /\ m.ver = p.ver /\ m.k = v.k /\ v.kf = "pri" /\ m.dev = Dev[v.d]
       /\ (p.ver >= 3 => m.snd = Acct[v.cl.rk] /\ m.root = Acct[v.d])
       /\ p.pay.t = "ok" /\ p.pay.key = m.key
Open(v) ==
    LET p == pk[v.p]  o == Parse(p, v)  ok == o = "valid/ok"  d == ok /\ Opens(p, v) IN
    /\ v.p <= N /\ (Loose \/ (v.p = N /\ v.c = v.d /\ v.k[1] = v.c /\ v.kf = "pri"))
    /\ Did(v, pk, [parse |-> o, clean |-> TRUE, rcpt |-> IF ok THEN [j \in 1..Len(p.hdr.rc) |-> <<p.hdr.rc[j].n, p.hdr.rc[j].kid[1], p.hdr.rc[j].kid[2]>>] ELSE <<>>,
                   kid |-> IF ok /\ v.api # "nodecode" THEN p.hdr.rc[Find(p, v.c)].kid ELSE <<"", 0>>,
                   dec |-> IF ~ok THEN "null" ELSE IF d THEN "ok" ELSE "kex",
                   body |-> IF d THEN p.pay.body ELSE 0, key |-> IF d THEN p.pay.key ELSE 0], NoNm)
--------------------------------------------------------------------------------
Events == {v \in
    [op : {"Encode"}, s : Senders, r : Rcpts, ver : Vers] \cup [op : {"Tamper"}, p : 1..MaxPk, w : Ways] \cup [op : {"Splice"}, p : 1..MaxPk, q : 1..MaxPk]
    \cup [op : {"Forge"}, s : Senders, h : HModes, a : 1..MaxPk, y : PModes, b : 1..MaxPk, ver : FVers]
    \cup [op : {"Junk"}, s : Senders, g : {"512", "256"}]
    \cup [op : {"Open"}, p : 1..MaxPk, api : Apis, c : Ctx, cl : Claims, d : Ctx, k : Keys, kf : {"pri", "pub"}] : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Genuine == {v \in [op : {"Open"}, p : 1..MaxPk, api : {"ctx"}, c : Ctx, cl : {c \in Claims : c.rk = c.n /\ c.rid = c.n}, d : Ctx, k : Keys, kf : {"pri"}] :
              v.p <= N /\ v.c = v.d /\ v.k[1] = v.c}
SimEvents == Pick(6 + (N - N), [op : {"Encode"}, s : Senders, r : Rcpts, ver : Vers]) \cup Pick(4 + (N - N), [op : {"Tamper"}, p : 1..MaxPk, w : Ways])
    \cup Pick(2 + (N - N), [op : {"Splice"}, p : 1..MaxPk, q : 1..MaxPk]) \cup Pick(4 + (N - N), [op : {"Forge"}, s : Senders, h : HModes, a : 1..MaxPk, y : PModes, b : 1..MaxPk, ver : FVers])
    \cup Pick(20 + (N - N), [op : {"Open"}, p : 1..MaxPk, api : Apis, c : Ctx, cl : Claims, d : Ctx, k : Keys, kf : {"pri", "pub"}]) \cup Pick(12, Genuine)
Step(v) == CASE v.op = "Encode" -> Encode(v) [] v.op = "Tamper" -> Tamper(v) [] v.op = "Splice" -> Splice(v) [] v.op = "Forge" -> Forge(v)
    [] v.op = "Junk" -> Junk(v) [] v.op = "Open" -> Open(v)
Init == pk = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == pk
Next == \E v \in Events : Step(v)
--------------------------------------------------------------------------------
IsOpen == act'.ev.op = "Open"
P == pk[act'.ev.p]
Got == IsOpen /\ act'.obs.dec = "ok"
\* M01: only an addressed node, on its device, with its key; and what it gets is what was encoded under that key
OnlyAddressed == [][Got => \E j \in 1..Len(P.hdr.rc) : P.hdr.rc[j].n = Node[act'.ev.c] /\ P.hdr.rc[j].m.k = act'.ev.k /\ P.hdr.rc[j].m.dev = Dev[act'.ev.d]]_vars
SameBody == [][Got => act'.obs.body = P.pay.body /\ act'.obs.key = act'.obs.body]_vars
Delivered == [][(IsOpen /\ act'.ev.p <= N /\ P.gen /\ act'.ev.api = "ctx" /\ act'.ev.kf = "pri" /\ act'.ev.c = act'.ev.d /\ P.sig = Node[act'.ev.cl.n] /\ act'.ev.cl.rk = act'.ev.cl.n /\ act'.ev.cl.rid = act'.ev.cl.n
                 /\ Len(P.hdr.rc) = 1 /\ P.hdr.rc[1].n = Node[act'.ev.c] /\ P.hdr.rc[1].kid = act'.ev.k /\ P.hdr.rc[1].m.dev = Dev[act'.ev.d] /\ P.hdr.rc[1].m.root = Acct[act'.ev.c]) => act'.obs.dec = "ok"]_vars
\* M02
OnlySigned == [][(IsOpen /\ act'.obs.parse \in {"valid/ok", "valid/corrupt", "valid/notforme"}) => P.sig = Node[act'.ev.cl.n]]_vars
\* M03
Bound == [][Got => LET m == P.hdr.rc[Find(P, act'.ev.c)].m IN m.ver = P.ver /\ (P.ver >= 3 => m.snd = Acct[act'.ev.cl.rk] /\ m.root = Acct[act'.ev.d])]_vars
\* M04
Trusted == [][(act'.ev.op = "Encode" /\ act'.obs.r) => (Len(act'.ev.r) > 0 /\ act'.ev.ver \in Supported /\ \A j \in 1..Len(act'.ev.r) : act'.ev.r[j].bad = "")]_vars
\* M05
FailSafe == [][(IsOpen /\ act'.obs.parse # "valid/ok") => (act'.obs.dec = "null" /\ act'.obs.body = 0 /\ act'.obs.key = 0)]_vars
\* M06
Fresh == \A i \in 1..N : \A j \in 1..N : (pk[i].gen /\ pk[j].gen /\ pk[i].pay.key = pk[j].pay.key) => i = j
================================================================================
