--------------------------------- MODULE Objects ---------------------------------
(* The objects of the library as trees of values.  A kind of object is a set  *)
(* of leaves; some parts are optional.  A copy has the same leaves and shares *)
(* nothing; an encoding carries the published leaves and depends on nothing   *)
(* else; what is restored from it has exactly those.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS KindsUsed,    \* kinds of objects
          Vars,         \* 1, 2: fixed values
          MaxO, MaxB,   \* objects, encodings
          MaxM, MaxG,   \* makings, alterations
          Few,          \* TRUE: only a part of the choices of absent parts
          Kinds         \* events
VARIABLES ob,     \* slot -> [k, m]: kind, and a function from its present leaves to values; k = "" when it does not exist
          by,     \* encodings: [k, m, ok]
          mk, gen, act
vars == <<ob, by, mk, gen, act>>
(* ---- the kinds ------------------------------------------------------------ *)
\* c: "buf" octets, "num" a large number: different in every object that is made;
\*    "own" small numbers, "fix" kinds of ciphers etc.: only compared with copies;
\*    "pri" private keys; "memo" what was found out about the object
L(p, c) == {[p |-> p, c |-> c, o |-> {}]}
Sub(pre, S) == {[p |-> pre \o x.p, c |-> x.c, o |-> {pre \o y : y \in x.o}] : x \in S}
Opt(n, S) == {[x EXCEPT !.o = @ \cup {n}] : x \in S}
EcKey == L("curve", "fix") \cup L("pub", "buf") \cup Opt("pri", L("pri", "pri"))
Sig == L("curve", "fix") \cup L("dig", "fix") \cup L("data", "buf")
CKey == L("cipher", "fix") \cup L("data", "buf")
CRes == L("cipher", "fix") \cup L("iv", "buf") \cup L("ct", "buf") \cup L("tag", "tag")
Ident == L("type", "fix") \cup L("id", "buf") \cup Sub("key.", EcKey) \cup Opt("sig", Sub("sig.", Sig))
Chain == Opt("status", L("status", "memo")) \cup Sub("root.", {IF x.o = {"sig"} THEN [x EXCEPT !.c = "never", !.o = {}] ELSE x : x \in Ident}) \cup Sub("node.", {[x EXCEPT !.o = @ \ {"sig"}] : x \in Ident})
Eph == L("id", "num") \cup Sub("key.", EcKey) \cup Opt("sig", Sub("sig.", Sig))
Node == Opt("eph.sig", Opt("eph", Opt("status", L("status", "memo")))) \cup L("dev", "buf")
    \cup {IF x.c = "memo" THEN [x EXCEPT !.o = {"status"}] ELSE x : x \in Sub("chain.", Chain)} \cup Opt("eph", Sub("eph.", Eph))
Kex == L("to", "buf") \cup L("id", "num") \cup Sub("ct.", CRes)
Set2 == Sub("pub.", EcKey) \cup Opt("x1", Sub("x1.", Kex)) \cup Opt("x1", Opt("x2", Sub("x2.", Kex))) \cup L("n", "fix")
Meta == L("ttl", "num") \cup L("bor", "num") \cup L("type", "own") \cup L("tag", "buf")
Payload == Sub("meta.", Meta) \cup L("body", "buf")
RootKeys == Sub("sig.", {[x EXCEPT !.o = {}] : x \in EcKey}) \cup Sub("ns.", CKey) \cup Sub("rs.", CKey)
Storage == Sub("local.", CKey) \cup Sub("remote.", CKey)
StreamKey == Sub("key.", CKey) \cup L("evo", "buf") \cup Opt("user", L("user", "buf")) \cup L("ppe", "own")
Packet == L("ver", "fix") \cup L("content", "buf") \cup Sub("sig.", Sig)
Device == L("salt", "buf") \cup L("sys", "buf") \cup L("msg", "buf") \cup L("srv", "buf")
Kdf == L("algo", "fix") \cup L("salt", "buf") \cup Opt("info", L("info", "buf"))
TPacket == L("type", "fix") \cup L("x", "fix") \cup L("body", "buf") \cup Opt("mac", L("mac", "buf"))
Ctx == Sub("dev.", Device) \cup {IF x.p = "chain.node.key.pri" THEN [x EXCEPT !.o = {}] ELSE x : x \in Sub("chain.", Chain)} \cup Sub("sk.", Storage) \cup L("hk.cipher", "fix") \cup L("hk.data", "buf") \cup L("ver", "own")
Whole(S) == {[x EXCEPT !.o = {}] : x \in S}
Table == [
    eckey |-> EcKey, sig |-> Sig, ckey |-> CKey, cres |-> CRes, ident |-> Ident, chain |-> Chain, eph |-> Eph, node |-> Node, kex |-> Kex, set |-> Set2,
    meta |-> Meta, payload |-> Payload, rootkeys |-> RootKeys, storage |-> Storage, streamkey |-> StreamKey, packet |-> Packet,
    encoded |-> Sub("key.", CKey) \cup Sub("packet.", Packet),
    decoded |-> L("err", "fix") \cup Sub("key.", CKey) \cup Sub("pay.", Payload),
    parsed |-> L("err", "fix") \cup L("sig", "fix") \cup Sub("set.", Set2) \cup Sub("kex.", Kex) \cup Sub("enc.", CRes),
    device |-> Device, kdf |-> Kdf, kdfresult |-> Sub("meta.", Kdf) \cup L("hash", "buf"), tpacket |-> TPacket,
    troot |-> L("cipher", "fix") \cup L("secret", "buf") \cup L("send", "own") \cup L("recv", "own"),
    ctx |-> Ctx, gen |-> Whole(Sub("ctx.", Ctx) \cup Sub("rec.", CKey) \cup Sub("rk.", RootKeys)),
    print |-> L("type", "fix") \cup L("data", "buf"), ecdh |-> Sub("key.", EcKey) \cup L("cipher", "fix"),
    ivs |-> L("seed", "buf") \cup L("cipher", "fix") \cup L("count", "own"),
    stream |-> Sub("key.", StreamKey) \cup Whole(Sub("iv.", L("seed", "buf") \cup L("cipher", "fix") \cup L("count", "own"))) \cup L("last", "own") \cup L("dir", "fix"),
    hsresult |-> Sub("local.", StreamKey) \cup Sub("remote.", StreamKey),
    nodes |-> Sub("n1.", Node) \cup Opt("n2", Sub("n2.", Node)) \cup L("n", "fix"),
    exchanges |-> Sub("x1.", Kex) \cup Opt("x2", Sub("x2.", Kex)) \cup L("n", "fix") ]
AllKinds == DOMAIN Table
Paths == TLCEval([k \in AllKinds |-> {x.p : x \in Table[k]}])
At == TLCEval([k \in AllKinds |-> [p \in Paths[k] |-> CHOOSE x \in Table[k] : x.p = p]])
Parts == TLCEval([k \in AllKinds |-> UNION {x.o : x \in Table[k]}])
\* failed parses and decodes carry nothing; a counter mode has no tag; a decoding stream is always made with user data
Failed(k, w) == (IF k = "decoded" THEN {p \in Paths[k] : p # "err"} ELSE IF k = "parsed" THEN {p \in Paths[k] : p \notin {"err", "sig"}} ELSE {})
Missing(k, w, var) == {p \in Paths[k] : At[k][p].o \cap w # {}}
    \cup {p \in Paths[k] : At[k][p].c = "never"}
    \cup (IF var = 2 THEN {p \in Paths[k] : At[k][p].c = "tag"} \cup Failed(k, w) ELSE {})
\* the generation of a context: the same values appear in two places
Same(k, p) == IF k # "gen" THEN p ELSE CASE p = "rk.sig.pri" -> "ctx.chain.root.key.pri" [] p = "rk.sig.pub" -> "ctx.chain.root.key.pub" [] p = "rk.rs.data" -> "ctx.sk.remote.data" [] OTHER -> p
Big(c) == c \in {"buf", "num", "pri", "tag"}
(* ---- encodings -------------------------------------------------------------- *)
Encodable == {"sig", "ckey", "cres", "ident", "chain", "eph", "node", "set", "payload", "rootkeys", "storage", "streamkey", "packet", "tpacket", "ctx"}
Private == {"rootkeys", "ctx"}
Kept(k, p) == LET c == At[k][p].c IN
    /\ c # "memo" /\ (c = "pri" => k \in Private)
    /\ (k = "ctx" => p \notin {"ver", "dev.salt", "dev.sys", "dev.msg", "dev.srv", "hk.cipher", "hk.data"})
Published == TLCEval([k \in Encodable |-> {p \in Paths[k] : Kept(k, p)}])
\* what the user of a context supplies or what is derived again when it is restored
Again == TLCEval([k \in Encodable |-> IF k = "ctx" THEN {"dev.salt", "dev.sys", "dev.msg", "dev.srv", "hk.cipher", "hk.data"} ELSE {}])
\* the identity of a root is published without a signature, that of a node not without one; private forms need the private keys
Shown(x) == IF x.k = "ident" /\ x.v = 2 THEN {"type", "id", "key.pub", "key.curve"} ELSE Published[x.k]
Lacking(x) == (x.k = "ident" /\ x.v = 1 /\ "sig.data" \notin DOMAIN x.m) \/ (x.k = "ctx" /\ "chain.root.key.pri" \notin DOMAIN x.m)
(* ---- behaviour -------------------------------------------------------------- *)
Slots == 1..MaxO
NoNm == [x \in {} |-> 0]
Null == [k |-> "", v |-> 0, m |-> NoNm]
Name(i) == "o" \o ToString(i)
\* a value: of which object it was made as which leaf; g > 0: altered
V(n, p, c) == [o |-> n, p |-> p, g |-> 0, s |-> IF Big(c) THEN "v" ELSE "n" \o ToString(n) \o p]
\* the key for packet headers is a function of the identifiers of the chain, made whenever a context is
Pre(k) == IF k = "gen" THEN "ctx." ELSE ""
Made(k, m) == IF k \notin {"ctx", "gen"} THEN m ELSE
    LET x == m[Pre(k) \o "chain.root.id"]  y == m[Pre(k) \o "chain.node.id"] IN
    [m EXCEPT ![Pre(k) \o "hk.data"] = [o |-> <<x.o, x.p, x.g, y.o, y.p, y.g>>, p |-> "hk", g |-> 0, s |-> "v"]]
Obs(o, r) == [r |-> r] @@ [all |-> [x \in {Name(i) : i \in {i \in Slots : o[i].k # ""}} |-> LET i == CHOOSE i \in Slots : x = Name(i) IN [p \in Paths[o[i].k] |-> p \in DOMAIN o[i].m]]]
\* the names of all values of all objects
AllPaths == TLCEval(UNION {Paths[k] : k \in AllKinds})
Key == TLCEval([i \in Slots |-> [p \in AllPaths |-> Name(i) \o ":" \o p]])
Back == TLCEval([i \in Slots |-> [x \in {Key[i][p] : p \in AllPaths} |-> CHOOSE p \in AllPaths : Key[i][p] = x]])
OneNm(i, x) == [y \in {Key[i][p] : p \in DOMAIN x.m} |-> LET w == x.m[Back[i][y]] IN [s |-> w.s, k |-> "b", n |-> <<w.o, w.p, w.g>>]]
RECURSIVE NmFrom(_, _)
NmFrom(o, i) == IF i > MaxO THEN NoNm ELSE IF o[i].k = "" THEN NmFrom(o, i + 1) ELSE OneNm(i, o[i]) @@ NmFrom(o, i + 1)
Nm(o) == NmFrom(o, 1)
Did(v, o, b, m, g, r, more) == ob' = o /\ by' = b /\ mk' = m /\ gen' = g /\ act' = [ev |-> v, obs |-> Obs(o, r), nm |-> Nm(o) @@ more]
Free(i) == ob[i].k = "" /\ \A j \in 1..(i - 1) : ob[j].k # ""
Make(v) == mk < MaxM /\ Free(v.i) /\ Did(v, [ob EXCEPT ![v.i] = [k |-> v.kind, v |-> v.var, m |-> Made(v.kind, [p \in Paths[v.kind] \ Missing(v.kind, v.w, v.var) |-> V(mk + 1, Same(v.kind, p), At[v.kind][p].c)])]], by, mk + 1, gen, TRUE, NoNm)
Copy(v) == Free(v.d) /\ ob[v.i].k # "" /\ Did(v, [ob EXCEPT ![v.d] = [k |-> ob[v.i].k, v |-> ob[v.i].v, m |-> Made(ob[v.i].k, ob[v.i].m)]], by, mk, gen, TRUE, NoNm)
Drop(v) == ob[v.i].k # "" /\ Did(v, [ob EXCEPT ![v.i] = Null], by, mk, gen, TRUE, NoNm)
\* one leaf changes in one object
Alter(v) == LET x == ob[v.i] IN
    /\ x.k # "" /\ gen < MaxG
    /\ v.p \in DOMAIN x.m
    /\ Did(v, [ob EXCEPT ![v.i].m[v.p] = [o |-> 0, p |-> v.p, g |-> gen + 1, s |-> IF @.s = "v" THEN "v" ELSE "g" \o ToString(gen + 1)]], by, mk, gen + 1, TRUE, NoNm)
\* which alterations leave something that can be encoded and restored
Altered(m) == {p \in DOMAIN m : m[p].g > 0}
Okay(k, m) == k \in Encodable /\ \A p \in Altered(m) : (p \in Published[k] => p \in {"body", "meta.ttl", "meta.bor", "meta.tag", "iv", "ct", "tag", "evo", "user", "key.data", "data", "local.data", "remote.data", "ns.data", "rs.data", "content", "dev", "id", "x1.to", "x1.id", "x1.ct.ct", "x1.ct.iv", "x2.to", "x2.id", "x2.ct.ct"} /\ k # "sig" /\ k # "tpacket")
    /\ p \notin Again[k] 
Restrict(m, S) == [p \in DOMAIN m \cap S |-> m[p]]
\* an encoding is a function of what is published and shows no private part of a public object
Ser(v) == LET x == ob[v.i]  pub == Restrict(x.m, Shown(x)) IN
    /\ x.k \in Encodable /\ v.b <= Len(by) + 1 /\ v.b <= MaxB /\ (x.k = "set" => "x1.id" \in DOMAIN x.m)
    /\ IF Lacking(x) THEN Did(v, ob, by, mk, gen, FALSE, NoNm) ELSE
       /\ Okay(x.k, x.m)
       /\ ob' = ob /\ by' = (IF v.b <= Len(by) THEN [by EXCEPT ![v.b] = [k |-> x.k, v |-> x.v, m |-> x.m]] ELSE Append(by, [k |-> x.k, v |-> x.v, m |-> x.m])) /\ mk' = mk /\ gen' = gen
    /\ act' = [ev |-> v, obs |-> Obs(ob, TRUE) @@ [hides |-> x.k \notin Private], nm |-> Nm(ob) @@ [bytes |-> [s |-> "enc", k |-> "b", n |-> [k |-> x.k, m |-> [p \in DOMAIN pub |-> <<pub[p].o, pub[p].p, pub[p].g>>]]]]]
Restore(v) == LET x == by[v.b]  keep == Restrict(x.m, Shown(x) \cup Again[x.k]) IN
    /\ v.b <= Len(by) /\ Free(v.i)
    /\ Did(v, [ob EXCEPT ![v.i] = [k |-> x.k, v |-> x.v, m |-> Made(x.k, keep @@ (IF x.k = "ctx" THEN [p \in {"ver"} |-> [o |-> 0, p |-> "newest", g |-> 0, s |-> "ver"]] ELSE NoNm))]], by, mk, gen, TRUE, NoNm)
\* changed encodings: refused, or taken for something that is whole
Needed == TLCEval([k \in Encodable |-> {p \in Published[k] : At[k][p].o = {} /\ At[k][p].c \notin {"tag", "never"} /\ ~(k = "cres" /\ p = "ct") /\ ~(k \in {"chain", "node", "ctx"} /\ At[k][p].p \in {x \o y : x \in {"node.sig.", "chain.node.sig."}, y \in {"data", "curve", "dig"}})}])
Mangle(v) == v.b <= Len(by) /\ ob' = ob /\ by' = by /\ mk' = mk /\ gen' = gen /\ act' = [ev |-> v, obs |-> [sane |-> TRUE], nm |-> NoNm]
Nothing(v) == mk = 0 /\ ob' = ob /\ by' = by /\ mk' = mk /\ gen' = gen /\ act' = [ev |-> v, obs |-> [refused |-> TRUE], nm |-> NoNm]
Choices(k) == IF Few THEN {{}, Parts[k]} \cup {{x} : x \in Parts[k]} ELSE SUBSET Parts[k]
Alterable(k) == {p \in Paths[k] : At[k][p].c \in {"buf", "num", "pri", "tag"} \/ (At[k][p].c = "own" /\ p # "ver" /\ ~(k \in {"ctx", "gen"}))}
Makes(K) == UNION {[op : {"Make"}, i : Slots, kind : {k}, w : Choices(k), var : Vars \ (IF k = "stream" THEN {2} ELSE {})] : k \in K}
Sets == <<
    Makes(KindsUsed),
    [op : {"Copy"}, d : Slots, i : Slots],
    [op : {"Drop"}, i : Slots],
    [op : {"Alter"}, i : Slots, p : UNION {Alterable(k) : k \in KindsUsed}],
    [op : {"Ser"}, i : Slots, b : 1..MaxB],
    [op : {"From"}, i : Slots, b : 1..MaxB],
    UNION {[op : {"Mangle"}, b : {b}, need : {Needed[by[b].k]}] : b \in DOMAIN by},
    [op : {"Null"}, kind : KindsUsed] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
One(S) == Pick(1 + (mk - mk), S)
Have == {i \in Slots : ob[i].k # ""}
Empty == {i \in Slots : Free(i)}
SimEvents == (UNION {[op : {"Make"}, i : Empty, kind : {k}, w : One({{}} \cup {{x} : x \in Parts[k]}), var : One(Vars \ (IF k = "stream" THEN {2} ELSE {}))] : k \in Pick(3 + (mk - mk), KindsUsed)})
    \cup [op : {"Copy"}, d : Empty, i : Pick(3 + (mk - mk), Have)] \cup [op : {"Drop"}, i : One({i \in Have : Empty = {} \/ mk % 3 = 0})]
    \cup UNION {[op : {"Alter"}, i : {i}, p : Pick(2 + (mk - mk), Alterable(ob[i].k) \cap DOMAIN ob[i].m)] : i \in Pick(2 + (mk - mk), Have)}
    \cup [op : {"Ser"}, i : Pick(3 + (mk - mk), Have), b : One(1..MaxB)] \cup [op : {"From"}, i : Empty, b : Pick(2 + (mk - mk), DOMAIN by)] 
    \cup UNION {[op : {"Mangle"} \cap Kinds, b : {b}, need : {Needed[by[b].k]}] : b \in One(DOMAIN by)}
Step(v) == CASE v.op = "Make" -> Make(v) [] v.op = "Copy" -> Copy(v) [] v.op = "Drop" -> Drop(v) [] v.op = "Alter" -> Alter(v) /\ v.p \in Alterable(ob[v.i].k) [] v.op = "Ser" -> Ser(v) [] v.op = "From" -> Restore(v) [] v.op = "Mangle" -> Mangle(v) [] v.op = "Null" -> Nothing(v)
Init == ob = [i \in Slots |-> Null] /\ by = <<>> /\ mk = 0 /\ gen = 0 /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<ob, by, mk, gen>>
Next == \E v \in Events : Step(v)
----
\* an object changes by what is done to it alone
Apart == [][\A i \in Slots : (ob'[i] # ob[i]) => (act'.ev.op = "Copy" /\ act'.ev.d = i) \/ (act'.ev.op \in {"Make", "From", "Drop", "Alter"} /\ act'.ev.i = i)]_vars
\* what is restored has no private part unless the kind is private, and is encoded alike
Whole2 == [][(act'.ev.op = "From") => LET b == by[act'.ev.b]  x == ob'[act'.ev.i] IN Restrict(x.m, Shown(b)) = Restrict(b.m, Shown(b)) /\ \A p \in DOMAIN x.m : At[x.k][p].c = "pri" => x.k \in Private]_vars
================================================================================
