------------------------------- MODULE Publish -------------------------------
(* What the library gives away.  Devices (Acc[d] is the account of device d) with everything they know; objects taken from  *)
(* them whole, stripped, rebuilt from published forms; every operation whose result is meant to leave the device; and an    *)
(* observer who collects what was published, is told a few secrets, opens whatever those open and derives whatever those    *)
(* derive.  "see" in an observation is what the bytes themselves show, in any text encoding.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Acc, NP, Kinds, Forms, Kept, MaxObj, MaxPub, MaxTold, Tells
VARIABLES ob, pb, told, act
vars == <<ob, pb, told, act>>
NoNm == [x \in {} |-> 0]
Devs == DOMAIN Acc
Accs == {Acc[d] : d \in Devs}
Pairs == 1..(NP * Len(Acc))                          \* key pair e belongs to device Dev(e)
Dev(e) == 1 + (e - 1) \div NP
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 2^(x - 1) + Sum(S \ {x})
\* public (root, rid, node, nid, eph, dev), private (the other) atoms; accounts own root, rid, rootp, ns, rs, pairs own eph, ephp, devices the rest
Private == {"rootp", "nodep", "ephp", "local", "ns", "rs", "rec", "sys", "hk", "pass", "sk"}
Classes == Private \cup {"root", "rid", "node", "nid", "eph", "dev"}
Nothing == [c \in Classes |-> {}]
A(c, x) == [Nothing EXCEPT ![c] = {x}]
J(f, g) == TLCEval([c \in Classes |-> f[c] \cup g[c]])
See(f) == [c \in Classes |-> Sum(f[c])]
Did(v, o, p, t, x) == ob' = o /\ pb' = p /\ told' = t /\ act' = [ev |-> v, obs |-> x, nm |-> NoNm]
------------------------------------------------------------------------------
\* objects: f what it is, d its device, e its key pair (0: none); r, n, k: the private half of the root, node, key pair is there
RootOf(d) == J(A("root", Acc[d]), A("rid", Acc[d]))
NodeOf(d) == J(A("node", d), A("nid", d))
ChainOf(d) == J(RootOf(d), NodeOf(d))
EphOf(e) == IF e = 0 THEN Nothing ELSE A("eph", e)
Public(x) == CASE x.f = "root" -> RootOf(x.d) [] x.f = "nodeid" -> NodeOf(x.d) [] x.f = "chain" -> ChainOf(x.d)
    [] x.f = "node" -> J(J(ChainOf(x.d), A("dev", x.d)), EphOf(x.e)) [] x.f = "eph" -> EphOf(x.e)
HasRoot(f) == f \in {"root", "chain", "node"}
HasNode(f) == f \in {"nodeid", "chain", "node"}
Has(x) == [r |-> TRUE, root |-> x.r, node |-> x.n, eph |-> x.k]
New(v, x) == Len(ob) < MaxObj /\ Did(v, Append(ob, x), pb, told, Has(x))
Set(v, x) == Did(v, [ob EXCEPT ![v.i] = x], pb, told, Has(x))
Take(v) == New(v, [f |-> v.f, d |-> v.d, e |-> v.e, r |-> HasRoot(v.f), n |-> HasNode(v.f), k |-> v.e # 0])
Copy(v) == New(v, ob[v.i])
\* the application removes a private half (`eph`: wickr_ephemeral_keypair_make_public)
Erase(v) == LET x == ob[v.i] IN Set(v, CASE v.w = "root" -> [x EXCEPT !.r = FALSE] [] v.w = "node" -> [x EXCEPT !.n = FALSE] [] OTHER -> [x EXCEPT !.k = FALSE])
Rotate(v) == Set(v, [ob[v.i] EXCEPT !.e = v.e, !.k = TRUE])
------------------------------------------------------------------------------
\* published: f the form, what is visible, what is sealed and under what (c: class, x: owner; "-": nothing)
Pub(v, p) == Len(pb) < MaxPub /\ Did(v, ob, IF v.op \in Kept THEN Append(pb, p) ELSE pb, told, [r |-> TRUE, see |-> See(p.clear)])
No(v) == Did(v, ob, pb, told, [r |-> FALSE])
Clear(f, x, s) == [f |-> f, x |-> x, clear |-> s, c |-> "-", k |-> 0, in |-> Nothing]
Sealed(f, c, k, in) == [f |-> f, x |-> [f |-> "-"], clear |-> Nothing, c |-> c, k |-> k, in |-> in]
Bare(x) == [x EXCEPT !.r = FALSE, !.n = FALSE, !.k = FALSE]
Publish(v) == LET x == ob[v.i] IN Pub(v, Clear("pub", Bare(x), Public(x)))
\* the private form of a chain needs both private halves
ChainPri(d) == J(ChainOf(d), J(A("rootp", Acc[d]), A("nodep", d)))
PubPri(v) == LET x == ob[v.i] IN IF x.r /\ x.n THEN Pub(v, Clear("pri", x, ChainPri(x.d))) ELSE No(v)
Read(v) == New(v, pb[v.b].x)
Shows(v) == Pub(v, Clear("print", [f |-> "-"], Nothing))
\* an identity signs if its private half is there
Sign(v) == LET x == ob[v.i] IN IF (x.f = "root" /\ x.r) \/ (x.f = "nodeid" /\ x.n) THEN Pub(v, Clear("sig", [f |-> "-"], Nothing)) ELSE No(v)
CtxOf(d) == J(ChainPri(d), J(A("local", d), A("rs", Acc[d])))
RkOf(d) == LET a == Acc[d] IN J(J(A("root", a), A("rootp", a)), J(A("ns", a), A("rs", a)))
\* ("kind" clear: the unprotected forms, which nobody should publish: they show that the check can see)
Export(v) == LET d == v.d IN CASE v.kind = "ctx" -> Pub(v, Sealed("exp", "pass", v.p, CtxOf(d))) [] v.kind = "storage" -> Pub(v, Sealed("exp", "pass", v.p, J(A("local", d), A("rs", Acc[d]))))
    [] v.kind = "recoverykey" -> Pub(v, Sealed("exp", "pass", v.p, A("rec", d)))
    [] v.kind = "recovery" -> Pub(v, Sealed("cip", "rec", d, RkOf(d)))
    [] v.kind = "local" -> Pub(v, Sealed("cip", "local", d, Nothing)) [] v.kind = "remote" -> Pub(v, Sealed("cip", "rs", Acc[d], Nothing))
    [] v.kind = "ctxclear" -> Pub(v, Clear("raw", [f |-> "-"], CtxOf(d))) [] v.kind = "rkclear" -> Pub(v, Clear("raw", [f |-> "-"], RkOf(d)))
    [] v.kind = "skclear" -> Pub(v, Clear("raw", [f |-> "-"], J(A("local", d), A("rs", Acc[d]))))
    [] v.kind = "devids" -> Pub(v, Clear("raw", [f |-> "-"], A("dev", d)))
\* a packet of device d for the devices of some nodes: its header, which names the recipients' node identifiers, opens with a key made from the sender's identifiers
Packet(v) == Pub(v, Sealed("pkt", "hk", v.d, [Nothing EXCEPT !["nid"] = {ob[i].d : i \in {v.to[j] : j \in DOMAIN v.to}}]))
\* a whole transport session, and data both ways: the initiator always shows its chain; the responder only if the initiator has not pinned it
Session(v) == Pub(v, Clear("tp", [f |-> "-"], J(ChainOf(v.a), IF v.pin THEN Nothing ELSE ChainOf(v.b))))
------------------------------------------------------------------------------
\* the observer
Derives(k) == LET hk == {d \in Devs : Acc[d] \in k["rid"] /\ d \in k["nid"]}  lo == {d \in Devs : Acc[d] \in k["ns"] /\ d \in k["sys"]} IN J(k, [Nothing EXCEPT !["hk"] = hk, !["local"] = lo])
Opens(k, p) == p.c # "-" /\ p.k \in k[p.c]
RECURSIVE Merge(_, _, _)
Merge(k, p, i) == IF i = 0 THEN k ELSE Merge(IF Opens(k, p[i]) THEN J(k, p[i].in) ELSE k, p, i - 1)
RECURSIVE Close(_, _)
Close(k, p) == LET m == Derives(Merge(k, p, Len(p))) IN IF m = k THEN k ELSE Close(m, p)
RECURSIVE Start(_, _)
Start(p, i) == IF i = 0 THEN Nothing ELSE J(p[i].clear, Start(p, i - 1))
RECURSIVE Told(_)
Told(i) == IF i = 0 THEN Nothing ELSE J(A(told[i].c, told[i].x), Told(i - 1))
Know == Close(J(Start(pb, Len(pb)), Told(Len(told))), pb)
Tell(v) == Len(told) < MaxTold /\ Did(v, ob, pb, Append(told, [c |-> v.c, x |-> v.x]), [r |-> TRUE])
\* opening something with a key that the observer has shows what is inside
Open(v) == Did(v, ob, pb, told, [r |-> TRUE, see |-> See(pb[v.b].in)])
------------------------------------------------------------------------------
Is(f) == {i \in DOMAIN ob : ob[i].f = f}
Sets == <<
    [op : {"Take"}, f : Forms \cap {"root", "nodeid", "chain"}, d : Devs, e : {0}], UNION {[op : {"Take"}, f : Forms \cap {"node", "eph"}, d : {Dev(e)}, e : {e}] : e \in Pairs},
    [op : {"Take"}, f : Forms \cap {"node"}, d : Devs, e : {0}],
    [op : {"Copy"}, i : DOMAIN ob],
    UNION {[op : {"Erase"}, i : {i}, w : (IF ob[i].r THEN {"root"} ELSE {}) \cup (IF ob[i].n THEN {"node"} ELSE {}) \cup (IF ob[i].k THEN {"eph"} ELSE {})] : i \in DOMAIN ob},
    UNION {[op : {"Rotate"}, i : {i}, e : {e \in Pairs : Dev(e) = ob[i].d}] : i \in Is("node")},
    [op : {"Publish"}, i : DOMAIN ob], [op : {"PubPri"}, i : Is("chain")],
    [op : {"Read"}, b : {b \in DOMAIN pb : pb[b].x.f # "-"}],
    [op : {"Print"}, i : Is("root") \cup Is("nodeid"), j : Is("root") \cup Is("nodeid")],
    [op : {"Sign"}, i : Is("root") \cup Is("nodeid")],
    [op : {"Export"}, kind : {"ctx", "storage", "recoverykey"}, d : Devs, p : {1, 2}], [op : {"Export"}, kind : {"recovery", "local", "remote", "devids"}, d : Devs, p : {0}],
    [op : {"Export"}, kind : {"ctxclear", "rkclear", "skclear"} \cap Kinds, d : Devs, p : {0}],
    [op : {"Packet"}, d : Devs, to : LET s == {i \in Is("node") : ob[i].e # 0} IN {<<i>> : i \in s} \cup {<<i, j>> : i, j \in s}],
    [op : {"Session"}, a : Devs, b : Devs, pin : BOOLEAN],
    UNION {[op : {"Tell"}, c : {c}, x : CASE c = "pass" -> {1, 2} [] c \in {"ns"} -> Accs [] OTHER -> Devs] : c \in Tells},
    LET w == TLCEval(Know) IN [op : {"Open"}, b : {b \in DOMAIN pb : pb[b].c # "-" /\ pb[b].k \in w[pb[b].c]}] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
SimEvents == LET all == {i \in DOMAIN Sets : Sets[i] # {} /\ \A v \in Sets[i] : v.op \in Kinds} IN UNION {Pick(2 + (Len(ob) - Len(ob)), Sets[i]) : i \in all}
Step(v) == CASE v.op = "Take" -> Take(v) [] v.op = "Copy" -> Copy(v) [] v.op = "Erase" -> Erase(v) [] v.op = "Rotate" -> Rotate(v) [] v.op = "Publish" -> Publish(v) [] v.op = "PubPri" -> PubPri(v)
    [] v.op = "Read" -> Read(v) [] v.op = "Print" -> Shows(v) [] v.op = "Sign" -> Sign(v) [] v.op = "Export" -> Export(v) [] v.op = "Packet" -> Packet(v) [] v.op = "Session" -> Session(v)
    [] v.op = "Tell" -> Tell(v) [] v.op = "Open" -> Open(v)
Init == ob = <<>> /\ pb = <<>> /\ told = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == [ob |-> ob, pb |-> [i \in DOMAIN pb |-> [f |-> pb[i].f, x |-> pb[i].x, see |-> See(pb[i].clear), c |-> pb[i].c, k |-> pb[i].k, in |-> See(pb[i].in)]], told |-> told]
Next == \E v \in Events : Step(v)
------------------------------------------------------------------------------
Raw == {i \in DOMAIN pb : pb[i].f \in {"pri", "raw"} /\ \E c \in Private : pb[i].clear[c] # {}}
\* as long as no private form is published and nothing told, the observer knows nothing private but keys made of public identifiers
Quiet == (Raw = {} /\ told = <<>>) => LET w == TLCEval(Know) IN \A c \in Private \ {"hk"} : w[c] = {}
\* what is told opens what was sealed with it, and no more: the private keys of other devices and accounts stay unknown
Bounded == LET w == TLCEval(Know)  T(c) == {told[i].x : i \in {j \in DOMAIN told : told[j].c = c}} IN
    Raw = {} => /\ w["ephp"] = {} /\ w["sk"] = {} /\ w["sys"] = T("sys")
                /\ (T("pass") = {} => w["nodep"] = {} /\ w["rec"] = T("rec") /\ w["rootp"] \subseteq {Acc[d] : d \in T("rec")} /\ w["rs"] \subseteq {Acc[d] : d \in T("rec")})
                /\ (T("pass") = {} => w["local"] \subseteq T("local") \cup {d \in T("sys") : Acc[d] \in T("ns") \cup {Acc[x] : x \in T("rec")}})
\* somebody who gets hold of one device's unprotected context has that device and what its account shares, nothing of other accounts or of other devices' own
Lost == (told = <<>> /\ Raw # {}) => LET w == TLCEval(Know) IN \A d \in Devs : (\A i \in Raw : d \notin pb[i].clear["nodep"]) => d \notin w["nodep"]
\* what is rebuilt from a public form has no private part
Rebuilt == [][(act'.ev.op = "Read" /\ pb[act'.ev.b].f = "pub") => ~act'.obs.root /\ ~act'.obs.node /\ ~act'.obs.eph]_vars
Shown == [][(act'.ev.op \notin {"PubPri", "Tell", "Open", "Export"} /\ Len(pb') > Len(pb)) => \A c \in Private : pb'[Len(pb')].clear[c] = {}]_vars
==============================================================================
