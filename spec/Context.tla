------------------------------- MODULE Context -------------------------------
(* Accounts, devices and contexts: root keys are generated, assembled and     *)
(* recovered; contexts are generated from them or restored from serialised or *)
(* passphrase-protected forms, on any device; data is stored with them, key   *)
(* pairs are made with them, messages travel between them.  Every object made *)
(* stays in existence; any operation may take any of them.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Devs, Passes, Texts, Ids, Vers, MaxObj, Kinds, EWays, RWays, CWays, Narrow
VARIABLES ob, act
vars == <<ob, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
No == [r |-> FALSE]
N == Len(ob)
Of(t) == {i \in 1..N : ob[i].t = t}
Did(v, y, o, nm) == ob' = y /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
Put(v, x, o, nm) == N < MaxObj /\ Did(v, Append(ob, x), o, nm)
Fail(v) == Did(v, ob, No, NoNm)
------------------------------------------------------------------------------
\* root keys: public half of the signing root, node storage root, remote storage root, and whose private half (0: none) the signing root has
RkNm(x) == [root |-> Nb("sig", x.sig), rpri |-> Nb("sigpri", IF x.pri # 0 THEN <<x.pri>> ELSE "absent"), ns |-> Nb("ns", x.ns), rs |-> Nb("rs", x.rs)]
\* only the private half is stored: what comes back is its pair
Stored(x) == [x EXCEPT !.sig = x.pri]
Signs(x) == x.pri = x.sig
MkRk(a, b, c, p) == [t |-> "rk", sig |-> a, ns |-> b, rs |-> c, pri |-> p]
\* contexts; gen: the generation result, which also holds the root keys and the recovery key
MkCx(rk, node, dev, id, key) == [t |-> "cx", gen |-> TRUE, rk |-> rk, root |-> rk.sig, node |-> node, dev |-> dev, lk |-> <<rk.ns, dev>>, rs |-> rk.rs, id |-> id, key |-> key, ver |-> 4]
Kept(c) == [root |-> c.root, node |-> c.node, lk |-> c.lk, rs |-> c.rs, id |-> c.id]
Restored(k, dev) == [t |-> "cx", gen |-> FALSE, rk |-> MkRk(0, 0, 0, 0), root |-> k.root, node |-> k.node, dev |-> dev, lk |-> k.lk, rs |-> k.rs, id |-> k.id, key |-> 0, ver |-> 4]
CxNm(c) == [root |-> Nb("sig", c.root), rpri |-> Nb("sigpri", <<c.root>>), node |-> Nb("node", c.node), npri |-> Nb("nodepri", c.node), nid |-> Nb("nodeid", c.node), rid |-> Nb("acctid", c.id),
            local |-> Nb("lk", c.lk), remote |-> Nb("rs", c.rs), dev |-> Nb("dev", c.dev), hk |-> Nb("hk", <<c.node, c.id>>)]
CxObs(c) == [r |-> TRUE, valid |-> TRUE, ver |-> c.ver, types |-> "rn"]
PutCx(v, c) == Put(v, c, CxObs(c), CxNm(c))
\* ---- generation
Account(v) == LET i == N + 1  x == MkRk(i, i, i, i) IN Put(v, x, [r |-> TRUE], RkNm(x))
Mix(v) == LET x == MkRk(ob[v.i].sig, ob[v.j].ns, ob[v.k].rs, IF v.p = 0 THEN 0 ELSE ob[v.p].pri) IN Put(v, x, [r |-> TRUE], RkNm(x))
\* root keys that differ from others in one part only
Vary(v) == LET i == N + 1  o == ob[v.i]
               x == CASE v.part = "sig" -> MkRk(i, o.ns, o.rs, i) [] v.part = "ns" -> MkRk(o.sig, i, o.rs, o.pri) [] OTHER -> MkRk(o.sig, o.ns, i, o.pri)
           IN Put(v, x, [r |-> TRUE], RkNm(x))
New(v) == LET i == N + 1 IN PutCx(v, MkCx(MkRk(i, i, i, i), i, v.dev, v.id, i))
NewSig(v) == LET i == N + 1 IN IF Signs(ob[v.i]) THEN PutCx(v, MkCx(MkRk(ob[v.i].sig, i, i, ob[v.i].pri), i, v.dev, v.id, i)) ELSE Fail(v)
Gen(v) == LET i == N + 1 IN IF Signs(ob[v.i]) THEN PutCx(v, MkCx(ob[v.i], i, v.dev, v.id, i)) ELSE Fail(v)
RootKeys(v) == Put(v, ob[v.c].rk, [r |-> TRUE], RkNm(ob[v.c].rk))
\* root keys ciphered on their own, with any key
RkExport(v) == IF ob[v.i].pri # 0 THEN Put(v, [t |-> "rec", rk |-> Stored(ob[v.i]), key |-> ob[v.k].key, ok |-> TRUE], [r |-> TRUE], [iv |-> Nb("iv", N + 1), ct |-> Nb("ct", N + 1)]) ELSE Fail(v)
\* ---- recovery
MakeRec(v) == Put(v, [t |-> "rec", rk |-> ob[v.c].rk, key |-> ob[v.c].key, ok |-> TRUE], [r |-> TRUE], [iv |-> Nb("iv", N + 1), ct |-> Nb("ct", N + 1)])
Key(v) == Put(v, [t |-> "key", key |-> ob[v.c].key], [r |-> TRUE], [k |-> Nb("reck", ob[v.c].key)])
\* the same root keys as a later version of the format would write them: not to be taken for this one's
Later(v) == ob[v.m].ok /\ ob[v.m].key = ob[v.k].key /\ Put(v, [ob[v.m] EXCEPT !.ok = FALSE], [r |-> TRUE], NoNm)
RecRk(v) == LET m == ob[v.m] IN IF m.ok /\ m.key = ob[v.k].key THEN Put(v, m.rk, [r |-> TRUE], RkNm(m.rk)) ELSE Fail(v)
Rec(v) == LET m == ob[v.m] IN IF m.ok /\ m.key = ob[v.k].key /\ Signs(m.rk) THEN LET c == MkCx(m.rk, N + 1, v.dev, v.id, m.key) IN Put(v, c, CxObs(c), CxNm(c) @@ [reck |-> Nb("reck", m.key)]) ELSE Fail(v)
PassRec(v) == LET m == ob[v.m]  e == ob[v.e] IN
    IF e.ok /\ e.kind = "recoverykey" /\ e.pass = v.p /\ m.ok /\ m.key = e.of.key /\ Signs(m.rk) THEN PutCx(v, MkCx(m.rk, N + 1, v.dev, v.id, m.key)) ELSE Fail(v)
\* ---- exports under a passphrase, and serialised contexts
Content(c, kind) == CASE kind = "ctx" -> Kept(c) [] kind = "storage" -> [lk |-> c.lk, rs |-> c.rs] [] OTHER -> [key |-> c.key]
Export(v) == LET c == ob[v.c]  i == N + 1 IN
    Put(v, [t |-> "exp", kind |-> v.kind, of |-> Content(c, v.kind), pass |-> v.p, ok |-> TRUE], [r |-> TRUE, cost |-> "scrypt17", cipher |-> "gcm"], [salt |-> Nb("salt", i), iv |-> Nb("iv", i), ct |-> Nb("ct", i)])
Import(v) == LET e == ob[v.e]  x == e.of IN
    IF ~(e.ok /\ e.kind = v.kind /\ e.pass = v.p) THEN Fail(v)
    ELSE CASE v.kind = "ctx" -> PutCx(v, Restored(x, v.dev))
           [] v.kind = "storage" -> Did(v, ob, [r |-> TRUE], [local |-> Nb("lk", x.lk), remote |-> Nb("rs", x.rs)])
           [] OTHER -> Put(v, [t |-> "key", key |-> x.key], [r |-> TRUE], [k |-> Nb("reck", x.key)])
Ser(v) == Put(v, [t |-> "ser", of |-> Kept(ob[v.c]), ok |-> TRUE], [r |-> TRUE], NoNm)
From(v) == IF ob[v.m].ok THEN PutCx(v, Restored(ob[v.m].of, v.dev)) ELSE Fail(v)
Copy(v) == PutCx(v, [ob[v.c] EXCEPT !.gen = IF v.whole THEN @ ELSE FALSE, !.key = IF v.whole THEN @ ELSE 0, !.rk = IF v.whole THEN @ ELSE MkRk(0, 0, 0, 0)])
Ver(v) == LET c == [ob[v.c] EXCEPT !.ver = v.ver] IN Did(v, [ob EXCEPT ![v.c] = c], CxObs(c), CxNm(c))
Mod(v) == Put(v, [ob[v.m] EXCEPT !.ok = FALSE], [r |-> TRUE], NoNm)
\* ---- storage
Store(c, w) == IF w = "local" THEN <<"l", c.lk>> ELSE <<"r", c.rs>>
Cipher(v) == LET c == ob[v.c]  i == N + 1 IN
    Put(v, [t |-> "ct", key |-> Store(c, v.w), text |-> v.x, ok |-> TRUE, by |-> [w |-> v.w, ns |-> c.lk[1], dev |-> c.lk[2], rs |-> c.rs]], [r |-> TRUE, leak |-> FALSE, auth |-> TRUE], [iv |-> Nb("iv", i), ct |-> Nb("ct", i)])
Decipher(v) == LET m == ob[v.m] IN
    IF m.ok /\ m.key = Store(ob[v.c], v.w) THEN Did(v, ob, [r |-> TRUE], [t |-> Nb("text", m.text)]) ELSE Fail(v)
\* ---- key pairs and messages
Pair(v) == Put(v, [t |-> "ek", node |-> ob[v.c].node], [r |-> TRUE, idok |-> TRUE], [pub |-> Nb("ekpub", N + 1)])
Owner(v) == Did(v, ob, [r |-> ob[v.e].node = ob[v.c].node], NoNm)
\* a message from a's context to b's device (with a key pair b makes), read by x with that key
Talk(v) == LET a == ob[v.a]  b == ob[v.b]  x == ob[v.x]  here == x.node = b.node  opens == here /\ x.dev = b.dev /\ (a.ver >= 3 => x.root = b.root) IN
    Did(v, ob, [parse |-> IF here THEN "valid/ok" ELSE "valid/notforme", dec |-> IF ~here THEN "null" ELSE IF opens THEN "ok" ELSE "kex"], NoNm)
------------------------------------------------------------------------------
Gens == {i \in Of("cx") : ob[i].gen}
ModWays(i) == CASE ob[i].t = "exp" -> EWays [] ob[i].t = "rec" -> RWays [] ob[i].t = "ct" -> CWays [] OTHER -> {"s.trunc"}
Sets == <<
    [op : {"Account"}],
    {v \in [op : {"Mix"}, i : Of("rk"), j : Of("rk"), k : Of("rk"), p : Of("rk") \cup {0}] : ~Narrow \/ v.p \in {0, v.i, v.j}},
    [op : {"Vary"}, i : Of("rk"), part : {"sig", "ns", "rs"}],
    [op : {"New"}, dev : Devs, id : Ids],
    [op : {"NewSig"}, i : Of("rk"), dev : Devs, id : Ids],
    [op : {"Gen"}, i : Of("rk"), dev : Devs, id : Ids],
    [op : {"RootKeys"}, c : Gens],
    [op : {"RkExport"}, i : Of("rk"), k : Of("key")],
    [op : {"MakeRec"}, c : Gens],
    [op : {"Key"}, c : Gens],
    [op : {"Later"}, m : Of("rec"), k : Of("key")],
    [op : {"RecRk"}, m : Of("rec"), k : Of("key")],
    [op : {"Rec"}, m : Of("rec"), k : Of("key"), dev : Devs, id : Ids],
    [op : {"PassRec"}, e : Of("exp"), p : Passes, m : Of("rec"), dev : Devs, id : Ids],
    [op : {"Export"}, kind : {"ctx", "storage"}, c : Of("cx"), p : Passes],
    [op : {"Export"}, kind : {"recoverykey"}, c : Gens, p : Passes],
    [op : {"Import"}, kind : {"ctx", "storage", "recoverykey"}, e : Of("exp"), p : Passes, dev : Devs],
    [op : {"Ser"}, c : Of("cx")],
    [op : {"From"}, m : Of("ser"), dev : Devs],
    [op : {"Copy"}, c : Of("cx"), whole : {FALSE}], [op : {"Copy"}, c : Gens, whole : {TRUE}],
    [op : {"Ver"}, c : Of("cx"), ver : Vers],
    UNION {[op : {"Mod"}, m : {i}, w : ModWays(i)] : i \in {j \in Of("exp") \cup Of("rec") \cup Of("ct") \cup Of("ser") : ob[j].ok}},
    [op : {"Cipher"}, c : Of("cx"), w : {"local", "remote"}, x : Texts],
    [op : {"Decipher"}, c : Of("cx"), w : {"local", "remote"}, m : Of("ct")],
    [op : {"Pair"}, c : Of("cx")],
    [op : {"Owner"}, e : Of("ek"), c : Of("cx")],
    {v \in [op : {"Talk"}, a : Of("cx"), b : Of("cx"), x : Of("cx")] : ~Narrow \/ v.a = v.b \/ v.b = v.x} >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
SimEvents == LET all == {i \in DOMAIN Sets : Sets[i] # {} /\ \A v \in Sets[i] : v.op \in Kinds} IN UNION {Pick(2 + (N - N), Sets[i]) : i \in all}
Step(v) == CASE v.op = "Account" -> Account(v) [] v.op = "Mix" -> Mix(v) [] v.op = "Vary" -> Vary(v) [] v.op = "New" -> New(v) [] v.op = "NewSig" -> NewSig(v) [] v.op = "Gen" -> Gen(v) [] v.op = "RootKeys" -> RootKeys(v)
    [] v.op = "RkExport" -> RkExport(v) [] v.op = "MakeRec" -> MakeRec(v) [] v.op = "Key" -> Key(v) [] v.op = "RecRk" -> RecRk(v) [] v.op = "Later" -> Later(v) [] v.op = "Rec" -> Rec(v) [] v.op = "PassRec" -> PassRec(v)
    [] v.op = "Export" -> Export(v) [] v.op = "Import" -> Import(v) [] v.op = "Ser" -> Ser(v) [] v.op = "From" -> From(v) [] v.op = "Copy" -> Copy(v) [] v.op = "Ver" -> Ver(v) [] v.op = "Mod" -> Mod(v)
    [] v.op = "Cipher" -> Cipher(v) [] v.op = "Decipher" -> Decipher(v) [] v.op = "Pair" -> Pair(v) [] v.op = "Owner" -> Owner(v) [] v.op = "Talk" -> Talk(v)
Init == ob = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == ob
Next == \E v \in Events : Step(v)
------------------------------------------------------------------------------
E == act'.ev
\* C01
Bound == [][(E.op = "Decipher" /\ act'.obs.r) => LET c == ob[E.c]  b == ob[E.m].by IN b.w = E.w /\ (IF E.w = "local" THEN c.lk = <<b.ns, b.dev>> ELSE c.rs = b.rs)]_vars
SameStore == \A i, j \in Of("cx") : (ob[i].gen /\ ob[j].gen) => ((ob[i].rk.ns = ob[j].rk.ns /\ ob[i].dev = ob[j].dev) <=> ob[i].lk = ob[j].lk) /\ (ob[i].rk.rs = ob[j].rk.rs <=> ob[i].rs = ob[j].rs)
\* C02
Recovers == [][(E.op \in {"Rec", "RecRk", "PassRec"} /\ act'.obs.r) => LET m == ob[E.m]  y == ob'[N + 1] IN m.ok /\ (IF y.t = "rk" THEN y = m.rk ELSE y.rk = m.rk /\ y.root = m.rk.sig /\ y.rs = m.rk.rs /\ y.key = m.key)]_vars
\* C03
OnlyPass == [][(E.op \in {"Import", "PassRec"} /\ act'.obs.r) => ob[E.e].ok /\ ob[E.e].pass = E.p]_vars
\* C04
Intact == [][(E.op \in {"From", "Import"} /\ N < Len(ob') /\ ob'[N + 1].t = "cx") => Kept(ob'[N + 1]) = ob[IF E.op = "From" THEN E.m ELSE E.e].of]_vars
Elsewhere == [][(E.op = "Talk" /\ act'.obs.dec = "ok") => ob[E.x].node = ob[E.b].node /\ ob[E.x].dev = ob[E.b].dev]_vars
\* C05
OwnNode == \A i, j \in Of("cx") : (ob[i].gen /\ ob[j].gen /\ ob[i].node = ob[j].node) => ob[i].rk = ob[j].rk /\ ob[i].dev = ob[j].dev
CanSign == \A i \in Of("cx") : ob[i].gen => Signs(ob[i].rk)
Owns == [][(E.op = "Owner" /\ act'.obs.r) => ob[E.e].node = ob[E.c].node]_vars
==============================================================================
