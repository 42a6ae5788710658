---------------------------------- MODULE Erase ----------------------------------
(* What is secret, by the kind of object that holds it (see Objects.tla) and  *)
(* by what the engine is given and gives: "shared" secrets agreed on,         *)
(* "derived" keys, "newkey"s and private halves of new pairs ("newec"), the   *)
(* "usedkey", what was "opened" and what was "closed"; the keys of the        *)
(* streams of an "endpoint", and in a session the "newsecret" drawn for it.   *)
EXTENDS Sequences, FiniteSets, TLC
EcPri(S) == {x \o "key.pri" : x \in S}
InChain(pre) == {pre \o "root.key.pri", pre \o "node.key.pri"}
InNode(pre) == InChain(pre \o "chain.") \cup {pre \o "eph.key.pri"}
InStream(pre) == {pre \o "key.data", pre \o "evo"}
InRoots(pre) == {pre \o "sig.pri", pre \o "ns.data", pre \o "rs.data"}
InDevice(pre) == {pre \o "salt", pre \o "sys"}
InCtx(pre) == InChain(pre \o "chain.") \cup InDevice(pre \o "dev.") \cup {pre \o "sk.local.data", pre \o "sk.remote.data", pre \o "hk.data"}
SecretOf == [
    eckey |-> {"pri"}, ckey |-> {"data"}, ident |-> {"key.pri"}, chain |-> InChain(""), eph |-> {"key.pri"}, node |-> InNode(""), set |-> {"pub.pri"},
    payload |-> {"body"}, rootkeys |-> InRoots(""), storage |-> {"local.data", "remote.data"}, streamkey |-> InStream(""),
    encoded |-> {"key.data"}, decoded |-> {"key.data", "pay.body"}, device |-> InDevice(""), kdfresult |-> {"hash"}, troot |-> {"secret"},
    ctx |-> InCtx(""), gen |-> InCtx("ctx.") \cup InRoots("rk.") \cup {"rec.data"}, ecdh |-> {"key.pri"}, stream |-> InStream("key."),
    hsresult |-> InStream("local.") \cup InStream("remote."), nodes |-> InNode("n1.") \cup InNode("n2.") ]
Left(k, p) == "left:" \o k \o "." \o p
EngineSecrets == {"left:shared", "left:derived", "left:newkey", "left:newec.pri", "left:usedkey", "left:opened", "left:closed", "left:endpoint.evo", "left:endpoint.key"}
AllSecrets == TLCEval(EngineSecrets \cup UNION {{Left(k, p) : p \in SecretOf[k]} : k \in DOMAIN SecretOf})
\* "all"; "session": and the secret of the session; "keys": all but the body of a message;
\* "engine": what the engine was given and gave
Guarded(w) == CASE w = "all" -> AllSecrets
    [] w = "session" -> AllSecrets \cup {"left:newsecret"}
    [] w = "keys" -> {x \in AllSecrets : x \notin {Left("payload", "body"), Left("decoded", "pay.body")}}
    [] w = "engine" -> EngineSecrets
ObsOf == TLCEval([w \in {"all", "session", "keys", "engine"} |-> [x \in Guarded(w) |-> FALSE]])
NoNames == [x \in {} |-> 0]
================================================================================
