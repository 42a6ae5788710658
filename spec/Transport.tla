----------------------------- MODULE Transport -----------------------------
(* Point-to-point connections: handshake, identity approval, data, errors,    *)
(* driven over a network the adversary controls.  Everything ever emitted is  *)
(* kept in `wire`; the adversary delivers any of it to any endpoint in any    *)
(* order, modified in the ways `Tampers` lists, or forges packets with the    *)
(* keys of M, an identity of its own.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ends,      \* endpoint instances
          Id,        \* [Ends -> identity]  A, B, M, ...; "A2" is another device of A; "P" holds no private keys
          Pin,       \* [Ends -> pinned identity or "-"]
          Mode,      \* [Ends -> "later" | "yes" | "no"]  when and how the application judges identities
          Evo,       \* [Ends -> packets per key period configured]
          MaxWire,   \* packets kept
          MaxSeqT,   \* data packets per direction
          MaxForge,  \* packets made by M
          Tampers, Forged, Evil,
          Twins,     \* ways to change a signed packet under which its signature stays valid
          Runs,      \* lengths of uninterrupted runs of data
          Kinds
VARIABLES ep, wire, act
vars == <<ep, wire, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
Fresh == [st |-> "NONE", err |-> "NONE", hs |-> "none", role |-> "", seed |-> 0, resp |-> 0, peer |-> "", req |-> FALSE,
          rk |-> "", evo |-> 0, tx |-> 0, rx |-> 0, asked |-> FALSE]
Valid(c) == c \notin {"X", "", "-"}      \* X: root of A over the node of M, signed by M
Signer(c) == IF c = "X" THEN "M" ELSE c
CanSign(c) == c # "P"
None == [t |-> "none", chain |-> "", signer |-> "", eph |-> 0, req |-> FALSE, ie |-> "", re |-> "", rk |-> "", evo |-> 0, s |-> 0, r |-> 0, dir |-> "", n |-> 0, pv |-> TRUE, of |-> <<0, "">>]
N == Len(wire)

\* ---- results: new endpoint state, packets emitted, notifications in order, data handed up, identity to judge
R(x, out, cb) == [x |-> x, out |-> out, cb |-> cb, msg |-> 0, ver |-> ""]
Fail(x, code) == IF x.st = "ERROR" THEN R([x EXCEPT !.err = code], <<>>, <<>>)
                 ELSE R([x EXCEPT !.st = "ERROR", !.err = code], <<>>, <<"ERROR">>)
RootOk(rk) == rk \in {"ok", "asym"}       \* a root key both streams can be built from
ParseRoot(rk) == rk \in {"ok", "asym", "ctr", "evo0", "evobig"}
RespTerm(x, e) == [None EXCEPT !.t = "resp", !.chain = IF x.req THEN Id[e] ELSE "", !.signer = Id[e],
                               !.eph = wire[x.seed].eph, !.ie = x.peer, !.re = Id[e], !.rk = "ok", !.evo = Evo[e], !.s = x.seed]
\* Both streams exist from here on; the responder's handshake response leaves after that.
Finalize(x, e) ==
    IF ~RootOk(x.rk) THEN Fail([x EXCEPT !.hs = "none"], "HANDSHAKE_FAILED")
    ELSE IF x.role = "R"
         THEN R([x EXCEPT !.st = "ACTIVE", !.hs = "none", !.resp = N + 1], <<RespTerm(x, e)>>, <<"ACTIVE", "tx">>)
         ELSE R([x EXCEPT !.st = "ACTIVE", !.hs = "none"], <<>>, <<"ACTIVE">>)
Judge(x, e, ok) == \* the application's verdict while one is awaited
    IF ok THEN Finalize(x, e) ELSE Fail([x EXCEPT !.hs = "failed"], "HANDSHAKE_FAILED")
Verified(x, e) ==  \* the peer's packet is in order; is its identity?
    IF Pin[e] # "-" THEN Finalize(x, e)
    ELSE LET y == [x EXCEPT !.hs = "pend", !.asked = TRUE]
             z == CASE Mode[e] = "later" -> R(y, <<>>, <<>>)
                    [] Mode[e] = "yes" -> Judge(y, e, TRUE)
                    [] Mode[e] = "no" -> Judge(y, e, FALSE)
         IN [z EXCEPT !.cb = <<"verify">> \o @, !.ver = x.peer]
HsFail(x) == Fail([x EXCEPT !.hs = "failed"], "PROCESS_HANDSHAKE_FAILED")
Peer(e, p) == IF Pin[e] # "-" THEN Pin[e] ELSE p.chain
\* pv: made for the version of the protocol that is spoken here
Auth(e, p) == p.pv /\ Valid(Peer(e, p)) /\ p.signer = Signer(Peer(e, p))
Handshake(x, e, i, p) ==
    IF x.hs = "none"       \* first packet: must be a seed
    THEN IF p.t = "seed" /\ Auth(e, p) /\ CanSign(Id[e])
         THEN Verified([x EXCEPT !.role = "R", !.seed = i, !.peer = Peer(e, p), !.req = p.req, !.rk = "ok", !.evo = Evo[e]], e)
         ELSE HsFail(x)
    ELSE IF x.hs = "prog"  \* our seed is out: must be a response to it
    THEN IF /\ p.t = "resp" /\ Auth(e, p)
            /\ p.eph = wire[x.seed].eph /\ p.ie = Id[e] /\ p.re = Peer(e, p) /\ ParseRoot(p.rk)
         THEN Verified([x EXCEPT !.resp = i, !.peer = Peer(e, p), !.rk = p.rk, !.evo = p.evo], e)
         ELSE HsFail(x)
    ELSE HsFail(x)
Key(x, dir) == <<x.seed, x.resp, dir>>
TxDir(x) == IF x.role = "I" THEN "i2r" ELSE "r2i"
RxDir(x) == IF x.role = "I" THEN "r2i" ELSE "i2r"
\* class: how a packet arrives: "ok", "unparsable", "hs" (a spoiled handshake packet), "data" (spoiled data packet)
Class(p, t) ==
    IF t = "none" THEN "ok"
    ELSE IF t \in {"header", "type", "one"} THEN "unparsable"
    ELSE IF t = "mtype" THEN (IF p.t = "data" THEN "data" ELSE "hs")     \* another mac type, known or not
    ELSE IF t = "swap" THEN (IF p.t = "data" THEN "hs" ELSE "data")    \* the other packet type
    ELSE IF p.t = "data" THEN "data" ELSE "hs"
Rx(x, e, i, p, cls) ==
    IF x.st = "ERROR" THEN R(x, <<>>, <<>>)
    ELSE IF cls = "unparsable" THEN Fail(x, "INVALID_RXDATA")
    ELSE LET hs == cls = "hs" \/ (cls = "ok" /\ p.t \in {"seed", "resp"}) IN
         IF hs /\ (x.hs # "none" \/ x.st = "NONE")
         THEN IF cls = "ok" THEN Handshake(x, e, i, p) ELSE HsFail(x)
         ELSE IF x.st = "ACTIVE"
         THEN IF cls = "ok" /\ p.t = "data" /\ <<p.s, p.r, p.dir>> = Key(x, RxDir(x)) /\ p.n > x.rx
              THEN [R([x EXCEPT !.rx = p.n], <<>>, <<"rx">>) EXCEPT !.msg = i]
              ELSE Fail(x, "PACKET_DECODE_FAILED")
         ELSE Fail(x, "BAD_RX_STATE")

\* ---- applying a result
RxEvo(x) == IF x.rk = "asym" THEN x.evo + 2 ELSE x.evo      \* a foreign responder may choose two different periods
KeyNms(x) == IF x.st # "ACTIVE" THEN NoNm ELSE
    [txk |-> Nb("key", <<Key(x, TxDir(x)), x.tx \div x.evo>>), rxk |-> Nb("key", <<Key(x, RxDir(x)), x.rx \div RxEvo(x)>>)]
Apply(e, v, r, extra) ==
    /\ N + Len(r.out) <= MaxWire
    /\ ep' = [ep EXCEPT ![e] = r.x]
    /\ wire' = wire \o r.out
    /\ act' = [ev |-> v,
               obs |-> [cb |-> r.cb, st |-> r.x.st, err |-> r.x.err, wire |-> N + Len(r.out), fresh |-> TRUE,
                        evo |-> IF r.x.st = "ACTIVE" THEN <<r.x.evo, RxEvo(r.x)>> ELSE <<0, 0>>],
               nm |-> KeyNms(r.x) @@ extra
                      @@ (IF r.msg # 0 THEN [msg |-> Nb("msg", r.msg)] ELSE NoNm)
                      @@ (IF r.ver # "" THEN [ver |-> Nb("chain", r.ver)] ELSE NoNm)
                      @@ (IF r.out # <<>> THEN [pkt |-> Nb("pkt", N + 1)] ELSE NoNm)
                      \* every handshake packet that is sent has an ephemeral key of its own
                      @@ (IF r.out # <<>> /\ r.out[1].t # "data" THEN [eph |-> Nb("eph", N + 1)] ELSE NoNm)]

Start(v) == LET e == v.e  x == ep[e] IN
    /\ N < MaxWire
    /\ Apply(e, v, IF x.st # "NONE" \/ x.hs # "none" THEN Fail(x, "BAD_START_STATUS")
                   ELSE IF ~CanSign(Id[e]) THEN Fail(x, "START_HANDSHAKE_FAILED")
                   ELSE R([x EXCEPT !.st = "INIT", !.hs = "prog", !.role = "I", !.seed = N + 1],
                          <<[None EXCEPT !.t = "seed", !.chain = Id[e], !.signer = Id[e], !.eph = N + 1, !.req = Pin[e] = "-"]>>, <<"INIT", "tx">>), NoNm)
Tx(v) == LET e == v.e  x == ep[e] IN
    /\ x.st # "ACTIVE" \/ (x.tx < MaxSeqT /\ x.rk = "ok")
    /\ IF x.st # "ACTIVE" THEN Apply(e, v, Fail(x, "BAD_TX_STATE"), NoNm)
       ELSE Apply(e, v, R([x EXCEPT !.tx = @ + 1],
                <<[None EXCEPT !.t = "data", !.s = x.seed, !.r = x.resp, !.dir = TxDir(x), !.n = x.tx + 1]>>, <<"tx">>), [msg |-> Nb("msg", N + 1)])
TxNull(v) == Apply(v.e, v, Fail(ep[v.e], "BAD_TX_STATE"), NoNm)
TxFault(v) == LET x == ep[v.e] IN   \* the cipher itself fails
    Apply(v.e, v, Fail(x, IF x.st = "ACTIVE" THEN "PACKET_ENCODE_FAILED" ELSE "BAD_TX_STATE"), NoNm)
RxNull(v) == Apply(v.e, v, Fail(ep[v.e], "INVALID_RXDATA"), NoNm)
Deliver(v) ==
    IF v.i > N THEN RxNull(v)
    ELSE Apply(v.e, v, Rx(ep[v.e], v.e, v.i, wire[v.i], Class(wire[v.i], v.t)), NoNm)
\* The application answers (again): only an answer that is awaited counts, and nothing counts after an error.
Done(v) == LET x == ep[v.e] IN
    /\ x.asked
    /\ Apply(v.e, v, IF x.st = "ERROR" \/ x.hs = "none" THEN R(x, <<>>, <<>>)
                  ELSE IF x.hs = "pend" THEN Judge(x, v.e, v.ok)
                  ELSE Fail([x EXCEPT !.hs = "failed"], "HANDSHAKE_FAILED"), NoNm)
Forgeries == Cardinality({i \in 1..N : wire[i].signer = "M"})
\* M signs someone else's handshake packet, with another chain in it or not ("V": M's own, and for another version of the protocol)
Forge(v) ==
    /\ v.i <= N /\ N < MaxWire /\ Forgeries < MaxForge /\ wire[v.i].t \in {"seed", "resp"}
    /\ ep' = ep /\ wire' = Append(wire, [wire[v.i] EXCEPT !.signer = "M", !.pv = v.ch # "V", !.chain = IF v.ch = "V" THEN "M" ELSE IF v.ch = "keep" THEN @ ELSE IF v.ch = "none" THEN "" ELSE v.ch])
    /\ act' = [ev |-> v, obs |-> [wire |-> N + 1], nm |-> [pkt |-> Nb("pkt", N + 1)]]
\* M answers a seed itself, with a root key of its choice
EvilResp(v) ==
    /\ v.i <= N /\ N < MaxWire /\ Forgeries < MaxForge /\ wire[v.i].t = "seed" /\ v.ic = wire[v.i].chain /\ Valid(v.ic)
    /\ ep' = ep /\ wire' = Append(wire, [None EXCEPT !.t = "resp", !.chain = "M", !.signer = "M", !.eph = wire[v.i].eph, !.ie = wire[v.i].chain,
                                               !.re = "M", !.rk = v.rk, !.evo = 5, !.s = v.i])
    /\ act' = [ev |-> v, obs |-> [wire |-> N + 1], nm |-> [pkt |-> Nb("pkt", N + 1)]]
\* Signatures are malleable (the other root, the padding): the adversary makes different bytes that say the same
Twin(v) ==
    /\ v.i <= N /\ N < MaxWire /\ wire[v.i].t \in {"seed", "resp"} /\ wire[v.i].of[1] = 0 /\ \A j \in 1..N : wire[j].of # <<v.i, v.w>>
    /\ ep' = ep /\ wire' = Append(wire, [wire[v.i] EXCEPT !.of = <<v.i, v.w>>])
    /\ act' = [ev |-> v, obs |-> [wire |-> N + 1], nm |-> [pkt |-> Nb("pkt", N + 1)]]
\* The endpoint is replaced by a copy of itself: nothing may change
Recopy(v) == Apply(v.e, v, R(ep[v.e], <<>>, <<>>), NoNm)
\* The application gives an endpoint up, wherever it is, and makes another one like it: nothing is left of the old one
Renew(v) == Apply(v.e, v, R(Fresh, <<>>, <<>>), NoNm)
\* A long uninterrupted run of packets between the two ends of one connection
Burst(v) == LET x == ep[v.e]  y == ep[v.f] IN
    /\ x.st = "ACTIVE" /\ y.st = "ACTIVE" /\ x.rk = "ok" /\ Key(x, TxDir(x)) = Key(y, RxDir(y)) /\ x.tx + v.n <= MaxSeqT
    /\ ep' = [ep EXCEPT ![v.e].tx = @ + v.n, ![v.f].rx = x.tx + v.n]
    /\ UNCHANGED wire
    /\ act' = [ev |-> v, obs |-> [sent |-> v.n, got |-> v.n, fresh |-> TRUE, periods |-> ((x.tx + v.n) \div x.evo) - (x.tx \div x.evo)],
               nm |-> [txk |-> Nb("key", <<Key(x, TxDir(x)), (x.tx + v.n) \div x.evo>>), rxk |-> Nb("key", <<Key(x, TxDir(x)), (x.tx + v.n) \div x.evo>>)]]

Events == {v \in
    [op : {"Start", "TxNull", "RxNull", "Tx", "TxFault", "Recopy", "Renew"}, e : Ends]
    \cup [op : {"Done"}, e : Ends, ok : BOOLEAN]
    \cup [op : {"Deliver"}, e : Ends, i : 1..MaxWire, t : Tampers]
    \cup [op : {"Forge"}, i : 1..MaxWire, ch : Forged]
    \cup [op : {"Twin"}, i : 1..MaxWire, w : Twins]
    \cup [op : {"EvilResp"}, i : 1..MaxWire, ic : {Id[e] : e \in Ends}, rk : Evil]
    \cup [op : {"Burst"}, e : Ends, f : Ends, n : Runs] : v.op \in Kinds}
\* state-aware choice for long random behaviours
Alive == {e \in Ends : ep[e].st # "ERROR"}
Recent == {i \in 1..N : i > N - 3}
One(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}
Genuine(e, i) == LET r == Rx(ep[e], e, i, wire[i], "ok") IN r.x.st # "ERROR"
SimEvents == {v \in
    [op : {"Start"}, e : {e \in Ends : ep[e].st = "NONE"}]
    \cup [op : {"Tx"}, e : {e \in Ends : ep[e].st = "ACTIVE"}]
    \cup [op : {"Done"}, e : {e \in Ends : ep[e].hs = "pend"}, ok : {TRUE}]
    \cup UNION {[op : {"Deliver"}, e : {e}, i : {i \in 1..N : Genuine(e, i)}, t : {"none"}] : e \in Alive}
    \cup (IF N % 5 # 3 THEN {} ELSE
           [op : {"Deliver"}, e : One(Alive), i : Recent, t : Tampers] \cup [op : {"Deliver"}, e : Ends \ Alive, i : Recent, t : {"none"}]
           \cup [op : {"Start", "Tx", "TxNull", "RxNull", "TxFault", "Recopy", "Renew"}, e : One(Alive) \cup One(Ends \ Alive)] \cup [op : {"Done"}, e : Ends, ok : BOOLEAN])
    \cup (IF N % 4 # 1 THEN {} ELSE [op : {"Forge"}, i : Recent, ch : Forged] \cup [op : {"Twin"}, i : Recent, w : Twins] \cup [op : {"EvilResp"}, i : Recent, ic : {Id[e] : e \in Ends}, rk : Evil])
    : v.op \in Kinds}
Step(v) == CASE v.op = "Start" -> Start(v) [] v.op = "Tx" -> Tx(v) [] v.op = "TxNull" -> TxNull(v) [] v.op = "RxNull" -> RxNull(v)
             [] v.op = "TxFault" -> TxFault(v) [] v.op = "Recopy" -> Recopy(v) [] v.op = "Renew" -> Renew(v)
             [] v.op = "Done" -> Done(v) [] v.op = "Deliver" -> Deliver(v) [] v.op = "Forge" -> Forge(v)
             [] v.op = "EvilResp" -> EvilResp(v) [] v.op = "Burst" -> Burst(v) [] v.op = "Twin" -> Twin(v)
Init == ep = [e \in Ends |-> Fresh] /\ wire = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<ep, wire>>
Next == \E v \in Events : (v.op = "Deliver" => v.i <= N) /\ Step(v)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Active(e) == ep[e].st = "ACTIVE"
\* T01: whoever is active has a peer that signed a packet of this handshake with an identity that is pinned or was approved
Authenticated == \A e \in Ends : Active(e) =>
    /\ Valid(ep[e].peer) /\ (Pin[e] # "-" => ep[e].peer = Pin[e])
    /\ LET p == wire[IF ep[e].role = "I" THEN ep[e].resp ELSE ep[e].seed] IN p.signer = Signer(ep[e].peer)
ApprovedFirst == [][\A e \in Ends : (~Active(e) /\ ep'[e].st = "ACTIVE" /\ Pin[e] = "-") =>
    \/ (act'.ev.op = "Done" /\ act'.ev.ok /\ ep[e].hs = "pend")
    \/ (Mode[e] = "yes" /\ act'.ev.op = "Deliver" /\ act'.obs.cb[1] = "verify")]_vars
NoResponseBefore == [][\A i \in N + 1..Len(wire') : wire'[i].t = "resp" /\ wire'[i].signer # "M" /\ wire'[i].of[1] = 0 =>
    \E e \in Ends : ep'[e].role = "R" /\ ep'[e].resp = i /\ ep'[e].st = "ACTIVE"]_vars
\* T02: same transcript <=> same keys; an initiator and a responder that are active on one handshake have named the same packets
SameTranscript == \A e, f \in Ends : (Active(e) /\ Active(f) /\ ep[e].role = "I" /\ ep[f].role = "R" /\ ep[e].resp = ep[f].resp) =>
    (wire[ep[e].seed].eph = wire[ep[f].seed].eph /\ ep[e].evo = ep[f].evo /\ ep[e].peer = Id[f] /\ ep[f].peer = Id[e])
\* T03: what is handed up was sent by the peer on this connection, once and in order
Sent(i) == wire[i].t = "data"
Handed == [][\A e \in Ends : ep'[e].rx > ep[e].rx =>
    \/ act'.ev.op = "Burst"
    \/ (act'.ev.op = "Deliver" /\ act'.ev.t = "none" /\ Sent(act'.ev.i) /\ wire[act'.ev.i].dir = RxDir(ep[e])
        /\ <<wire[act'.ev.i].s, wire[act'.ev.i].r>> = <<ep[e].seed, ep[e].resp>> /\ wire[act'.ev.i].n = ep'[e].rx)]_vars
DeliverOrError == [][(act'.ev.op = "Deliver" /\ ep[act'.ev.e].st = "ACTIVE") =>
    (ep'[act'.ev.e].rx > ep[act'.ev.e].rx \/ ep'[act'.ev.e].st = "ERROR")]_vars
\* T04
ErrorIsFinal == [][\A e \in Ends : (ep[e].st = "ERROR" /\ act'.ev.op # "Renew") =>
    (ep'[e].st = "ERROR" /\ (("e" \in DOMAIN act'.ev /\ act'.ev.e = e) => (act'.obs.cb = <<>> /\ wire' = wire)))]_vars
\* T05
Moves == {<<"NONE", "INIT">>, <<"NONE", "ACTIVE">>, <<"INIT", "ACTIVE">>, <<"NONE", "ERROR">>, <<"INIT", "ERROR">>, <<"ACTIVE", "ERROR">>}
States == {"NONE", "INIT", "ACTIVE", "ERROR"}
Lifecycle == [][\A e \in Ends : (ep'[e].st # ep[e].st /\ act'.ev.op # "Renew") =>
    (<<ep[e].st, ep'[e].st>> \in Moves /\ SelectSeq(act'.obs.cb, LAMBDA c : c \in States) = <<ep'[e].st>>)]_vars
StartsAnew == [][act'.ev.op = "Renew" => (ep'[act'.ev.e] = Fresh /\ wire' = wire /\ act'.obs.cb = <<>>)]_vars
NoSpuriousState == [][\A e \in Ends : (("e" \in DOMAIN act'.ev /\ act'.ev.e = e /\ act'.ev.op # "Burst") /\ ep'[e].st = ep[e].st) =>
    SelectSeq(act'.obs.cb, LAMBDA c : c \in States) = <<>>]_vars
ErrorHasCode == \A e \in Ends : (ep[e].st = "ERROR") = (ep[e].err # "NONE")
\* T06: no two handshakes share keys: every response answers exactly one seed and is used by exactly one responder
Separate == \A e, f \in Ends : (e # f /\ Active(e) /\ Active(f) /\ ep[e].role = ep[f].role) =>
    (ep[e].seed # ep[f].seed \/ ep[e].resp # ep[f].resp)
\* nobody who follows the protocol sends an ephemeral key twice, whatever became of the endpoint that had it
OwnEphemeral == \A i, j \in 1..N : (i < j /\ wire[i].t = "seed" /\ wire[j].t = "seed" /\ wire[i].eph = wire[j].eph) => (wire[j].signer = "M" \/ wire[j].of[1] # 0)
================================================================================
