"""Transport.tla <-> wickr_transport_ctx_*."""
from mbt import *
from checks import check

class Adapter:
    def __init__(self, rnd, opts): self.rnd, self.o, self.n, self.new = rnd, opts, 0, {}
    def setup(self):
        o = self.o
        ids = sorted((set(o["Id"].values()) | set(o["Pin"].values()) | {"M"} | set(o.get("Forged", ()))) - {"-", "keep", "none"})
        c, roots = [], set()
        def root(x):
            if x not in roots: roots.add(x); c.append("id_root r" + x)
        for i in ids:
            if i == "X": continue
            root(i[0])
            c += ["id_node n%s r%s" % (i, i[0]), "chain %s r%s n%s" % (i, i[0], i)]
            if i == "P": c += ["chain_pub P P"]
        if "X" in ids: root("A"); c += ["chain X rA nM"]
        for e in sorted(o["Id"]):
            pin = o["Pin"][e]
            if pin != "-" and self.rnd.random() < .5: c.append("chain_pub pub%s %s" % (pin, pin)); pin = "pub" + pin
            self.new[e] = "tp_new %s %s %s %d %s" % (e, o["Id"][e], pin, o["Evo"][e], o["Mode"][e]); c.append(self.new[e])
        return c
    def cmds(self, v):
        op = v["op"]; r = self.rnd
        if op == "Start": return ["tp_start " + v["e"]]
        if op in ("Tx", "TxNull", "TxFault"):
            self.n += 1
            if op == "TxNull": return ["tp_tx %s -" % v["e"]]
            m = "m%d" % self.n
            mk = ["buf %s rand %d" % (m, r.choice([8, 9, 16, 31, 100, 1000, 5000])), "buftok " + m]
            tx = ["tp_tx %s %s" % (v["e"], m)]
            return mk + (["faultop enc"] + tx + ["faultop -"] if op == "TxFault" else tx)
        if op == "Recopy": return ["tp_recopy " + v["e"]]
        if op == "Renew": return [self.new[v["e"]], "tp_q " + v["e"]]
        if op == "RxNull": return ["tp_rx %s -" % v["e"]]
        if op == "Done": return ["tp_done %s %d" % (v["e"], v["ok"])]
        if op == "Deliver":
            w = "w%d" % v["i"]; t = v["t"]
            if t == "none": return ["tp_rx %s %s" % (v["e"], w)]
            m = {"header": "trunc 9", "one": "trunc 1", "type": "flip 0 0x20", "swap": "flip 0 0x10", "mtype": "", "mac": "flip -1 1", "flags": "flip 1 1" if r.random() < .5 else "flip 1 2",
                 "ver": "flip 1 %d" % r.choice([2, 0x80]), "nomac": "flip 0 0", "cut": "trunc -1", "ext": "ext 00", "body": "flip 60 %d" % r.choice([1, 16, 128])}[t]
            if t == "mtype": return ["tp_mtype tmp %s %d" % (w, r.randrange(7)), "tp_rx %s tmp" % v["e"]]
            if t == "nomac": return ["tp_nomac tmp " + w, "tp_rx %s tmp" % v["e"]]
            if t == "flags": return ["tp_flags tmp %s %d" % (w, r.randrange(8)), "tp_rx %s tmp" % v["e"]]
            if t == "body": return ["tp_body tmp %s %d" % (w, r.randrange(1000)), "tp_rx %s tmp" % v["e"]]
            return ["mutate tmp %s %s" % (w, m), "tp_rx %s tmp" % v["e"]]
        if op == "Forge": return ["tp_forge w%d %s M%s" % (v["i"], "M" if v["ch"] == "V" else v["ch"], " %d" % self.rnd.choice([0, 2, 3, 127, 128, 255]) if v["ch"] == "V" else "")]
        if op == "Twin": return ["tp_twin w%d %s" % (v["i"], v["w"])]
        if op == "EvilResp": return ["tp_evil w%d M %s %s" % (v["i"], v["ic"], v["rk"])]
        if op == "Burst": return ["tp_burst %s %s %d" % (v["e"], v["f"], v["n"])]
        raise CheckError("op " + op)
    def observe(self, v, r):
        x = dict(r[-1] if v["op"] != "TxFault" else r[-2])
        toks = {k: x[k] for k in ("txk", "rxk", "msg", "ver", "pkt", "eph") if k in x}
        if v["op"] == "Tx": toks["msg"] = r[1]["t"]
        return x, toks

PROPS = ["ApprovedFirst", "Handed", "DeliverOrError", "ErrorIsFinal", "Lifecycle", "NoSpuriousState", "NoResponseBefore", "StartsAnew"]
INV = ["Authenticated", "OwnEphemeral", "SameTranscript", "ErrorHasCode", "Separate"]

# ------------------------------------------------------------------------------- packets on their own
class PAdapter:
    XS = {"0": [0], "1": [1], "lo": [255, 256, 513, 65535], "mid": [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 40) + 7], "hi": [1 << 63, (1 << 64) - 2, (1 << 63) + 12345], "max": [(1 << 64) - 1]}
    LEN = {"one": [1], "mid": [2, 8, 9, 10, 100, 140], "big": [170, 400, 5000]}
    def __init__(self, rnd, opts):
        self.rnd, self.o = rnd, opts
        self.x = {k: rnd.choice(v) for k, v in self.XS.items()}
        self.back = {str(v): k for k, v in self.x.items()}
        self.body = {b: bytes(rnd.randrange(256) for _ in range(rnd.choice(self.LEN[b]))) for b in self.LEN}
        self.cmdpk, self.pk, self.buf = {}, {}, None
    def setup(self):
        c = []
        for i in "ABP": c += ["id_root r" + i, "id_node n%s r%s" % (i, i), "chain %s r%s n%s" % (i, i, i)]
        c += ["chain_pub P P", "chain X rA nB"]
        return c + ["buf b_%s hex %s" % (b, v.hex()) for b, v in self.body.items()]
    def hdr(self, d): return 10 if d["ty"] == "h" else 9
    def cmds(self, v):
        op, r, s = v["op"], self.rnd, self.cmdpk
        if op == "Make":
            s[v["p"]] = v
            return ["pk_make %s %s %d %d %d b_%s" % (v["p"], v["ty"], v["mac"], self.x[v["x"]], v["ver"], v["b"])]
        if op == "Sign": return ["pk_sign %s %s" % (v["p"], v["id"])]
        if op == "Verify": return ["pk_verify %s %s" % (v["p"], v["id"])]
        if op == "Ser": self.cur = s[v["p"]]; return ["pk_ser bytes " + v["p"]]
        if op == "Parse": s[v["p"]] = self.cur; return ["pk_parse %s bytes" % v["p"]]
        if op == "Copy": s[v["q"]] = s[v["p"]]; return ["pk_copy %s %s" % (v["q"], v["p"])]
        if op == "Mut":
            h = self.hdr(self.cur); m = v["m"]
            if m == "null": return ["drop bytes"]
            k = {"one": "trunc 1", "hdr-": "trunc %d" % r.randrange(2, h), "hdr": "trunc %d" % h, "hdr+mac": "trunc %d" % (h + 143), "cut": "trunc -1", "ext": "ext %02x" % r.randrange(256),
                 "type": "flip 0 0x%x0" % r.choice([2, 4, 8, 0xe]), "swap": "flip 0 0x10", "ver": "flip 1 %d" % r.randrange(1, 256), "x": "flip %d %d" % (r.randrange(2, h), 1 << r.randrange(8)),
                 "body": "flip %d %d" % (h, r.randrange(1, 256)), "last": "flip -1 %d" % r.randrange(1, 256), "mactype": "NIB"}[m]
            if k == "NIB": return ["pk_nib bytes"]
            return ["mutate bytes bytes " + k]
        raise CheckError(op)
    def observe(self, v, r):
        x = dict(r[-1]); op = v["op"]
        if op in ("Make", "Parse", "Copy"):
            toks = {"body": x["body"]} if "body" in x else {}
            if x["ok"]: x["ty"] = "hd"[x["ty"]]; x["x"] = self.back.get(x["x"], x["x"])
            if op == "Make": self.pk[v["p"]] = dict(v, signed=False)
            if op == "Parse": self.pk[v["p"]] = dict(self.buf)
            if op == "Copy": self.pk[v["q"]] = dict(self.pk[v["p"]])
            return x, toks
        if op == "Sign" and x["r"]: self.pk[v["p"]].update(signed=True, mac=2)
        if op == "Ser":
            d = self.pk[v["p"]]; self.buf = dict(d)
            h = bytes([(0 if d["ty"] == "h" else 16) + d["mac"]]) + (bytes([d["ver"]]) if d["ty"] == "h" else b"") + self.x[d["x"]].to_bytes(8, "little") + self.body[d["b"]]
            got = bytes.fromhex(x["hex"]) if x["ok"] else b""
            x["layout"] = got[:len(h)] == h and len(got) == len(h) + (143 if d["signed"] else 0)
        return x, {}
TPP = ["RoundTrip", "OnlyTheSigner"]
MUTS = {"null", "one", "hdr-", "hdr", "hdr+mac", "cut", "ext", "type", "swap", "ver", "x", "body", "last", "mactype"}
def PK(**kw):
    d = dict(Pks={"p"}, Xs={"0", "max"}, Vers={1}, Bodies={"one", "big"}, Macs={0, 1, 2}, Types={"h", "d"}, Signers={"A", "B", "P"}, Verifiers={"A", "B", "P", "X"}, Muts=MUTS, MaxSteps=50, Linear=True,
             Kinds={"Make", "Sign", "Verify", "Ser", "Parse", "Mut"})
    d.update(kw); return d

# ------------------------------------------------------------------------------- what concerns which property
def _cb(d): return list(d.got.get("cb") or [])
def _xcb(d): return list(d.a["obs"].get("cb") or [])
def _more(d, k): return _cb(d).count(k) > _xcb(d).count(k)
def _less(d, k): return _cb(d).count(k) < _xcb(d).count(k)
def _dif(d, *ks): return any(str(x).split(":")[0].split(" ")[0] in ks for x in d.diffs)
def _crash(d): return "crash" in d.got
def f_T01(d):
    o = d.a["obs"]
    return _crash(d) or (d.got.get("st") == "ACTIVE" and o.get("st") != "ACTIVE") or _more(d, "tx") or _more(d, "verify") or _less(d, "verify") or _more(d, "ACTIVE") or _dif(d, "ver") \
        or (_dif(d, "cb") and "tx" in _xcb(d) and "ACTIVE" in _xcb(d))
def f_T02(d):
    if d.got.get("st") == "ERROR" and any(x["ev"]["op"] == "Twin" for x in d.walk): return _crash(d)    # refusing changed packets is no violation
    return f_T01(d) or _dif(d, "txk", "rxk", "msg") or _less(d, "ACTIVE") or _less(d, "rx") or _more(d, "rx")
def f_T03(d): return _crash(d) or _more(d, "rx") or _less(d, "rx") or _dif(d, "msg", "sent", "got") or (d.a["ev"]["op"] in ("Deliver", "RxNull") and d.a["obs"].get("st") == "ERROR" and _dif(d, "st"))
def f_T04(d): return _crash(d) or (d.a["obs"].get("st") == "ERROR" and "ERROR" not in _xcb(d) and _dif(d, "st", "cb", "wire", "msg"))
def f_T05(d): return _crash(d) or _dif(d, "st", "err", "cb", "wire")
def f_T06(d): return _crash(d) or _dif(d, "txk", "rxk", "evo", "periods", "fresh", "pkt", "eph", "sent", "got") or _more(d, "rx") or (_more(d, "ACTIVE"))
def f_T07(d): return True

def C(**kw):
    d = dict(Ends={"a", "b"}, Id={"a": "A", "b": "B"}, Pin={"a": "-", "b": "-"}, Mode={"a": "later", "b": "later"}, Evo={"a": 2, "b": 3}, MaxWire=4, MaxSeqT=2, MaxForge=1, Tampers={"none"},
             Forged={"keep", "M", "none", "X", "V"}, Evil={"ok", "asym", "ctr", "evo0", "evobig", "short"}, Runs={1}, Twins={"root", "pad"}, Kinds={"Start", "Tx", "Deliver", "Done"})
    d.update(kw); return d
def two(ia, ib, pa, pb, ma="later", mb="later", **kw): return C(Id={"a": ia, "b": ib}, Pin={"a": pa, "b": pb}, Mode={"a": ma, "b": mb}, **kw)
def G(r, label, c, focus, **kw): r.graph(label, "Transport", Adapter, c, dict(c), focus, INV, PROPS, **kw)
def Sim(r, label, c, focus, num, depth): r.sim(label, "Transport", Adapter, c, dict(c), focus, num, depth, invs=INV)
TAMP = {"none", "header", "one", "type", "swap", "mac", "flags", "ver", "nomac", "cut", "ext", "body", "mtype"}
ALLK = {"Start", "Tx", "Deliver", "Done", "TxNull", "RxNull", "TxFault", "Recopy", "Renew", "Forge", "EvilResp", "Twin"}
def many(**kw):
    """Six endpoints: two devices of A, B twice, a stranger M that also plays by the rules, and one without private keys."""
    d = dict(Ends={"a1", "a2", "b1", "b2", "c", "p"}, Id={"a1": "A", "a2": "A2", "b1": "B", "b2": "B", "c": "C", "p": "P"},
             Pin={"a1": "-", "a2": "B", "b1": "-", "b2": "A", "c": "-", "p": "-"}, Mode={"a1": "later", "a2": "later", "b1": "yes", "b2": "later", "c": "yes", "p": "yes"},
             Evo={"a1": 2, "a2": 1, "b1": 3, "b2": 512, "c": 32768, "p": 4}, MaxWire=60, MaxSeqT=30, MaxForge=12, Tampers=TAMP, Kinds=ALLK)
    d.update(kw); return C(**d)
def sims(r, f, q, t, **kw):
    Sim(r, "six endpoints", many(**kw), f, r.pick(q, t), 70)
    Sim(r, "six endpoints, all approve", many(Mode={k: "yes" for k in ("a1", "a2", "b1", "b2", "c", "p")}, Pin={"a1": "-", "a2": "-", "b1": "-", "b2": "-", "c": "A", "p": "-"}, **kw), f, r.pick(q // 2, t), 70)

# Random histories chosen without the specification
def gen_conn(rnd):
    ends = ["a1", "a2", "b1", "b2", "c"]; ev = []; n = 0
    for x in range(rnd.randrange(2, 5)):
        a, b = rnd.sample(ends, 2)
        ev.append({"op": "Start", "e": a}); base = n + 1
        ev += [{"op": "Deliver", "e": b, "i": base, "t": "none"}, {"op": "Done", "e": b, "ok": True} if rnd.random() < .7 else {"op": "RxNull", "e": b}]
        ev += [{"op": "Deliver", "e": a, "i": base + 1, "t": "none"}]
        n = base + 1
        for _ in range(rnd.randrange(12)):
            y = rnd.random()
            if y < .5: ev.append({"op": "Tx", "e": rnd.choice([a, b])}); n += 1
            else: ev.append({"op": "Deliver", "e": rnd.choice([a, b]), "i": max(1, n - rnd.randrange(3)), "t": rnd.choice(["none"] * 6 + ["body", "mac", "swap"])})
    return ev
def gen_walk(rnd):
    """Only events the specification allows at any time (Done needs an endpoint that was asked: approving ones do not)."""
    return [e for e in gen_conn(rnd) if e["op"] != "Done"]
def traces(r, f, num):
    c = many(Mode={k: "yes" for k in ("a1", "a2", "b1", "b2", "c", "p")}, Pin={k: "-" for k in ("a1", "a2", "b1", "b2", "c", "p")}, MaxWire=80)
    r.trace("recorded connections", "Transport", Adapter, c, dict(c), f, gen_walk, num)

@check("T01")
def T01(r):
    G(r, "unpinned, forged", two("A", "B", "-", "-", MaxWire=3, Kinds={"Start", "Deliver", "Done", "Forge", "EvilResp"}), f_T01)
    G(r, "pinned, forged", two("A", "B", "B", "A", MaxWire=3, Kinds={"Start", "Deliver", "Done", "Forge", "EvilResp"}), f_T01)
    G(r, "pinned to someone else", two("A", "B", "C", "-", mb="yes", MaxWire=3, Kinds={"Start", "Deliver", "Forge"}), f_T01)
    G(r, "another device of the pinned identity", two("A2", "B", "-", "A", ma="yes", MaxWire=3, Kinds={"Start", "Deliver", "Forge"}), f_T01)
    G(r, "invalid chain", two("X", "B", "-", "-", mb="yes", MaxWire=3), f_T01)
    G(r, "no private keys", two("P", "B", "-", "-", ma="yes", mb="yes", MaxWire=3), f_T01)
    G(r, "modified handshakes", two("A", "B", "-", "-", mb="yes", MaxWire=2, Tampers=TAMP, Kinds={"Start", "Deliver", "Done"}), f_T01)
    G(r, "rejecting", two("A", "B", "-", "-", "no", "no", MaxWire=2, Kinds={"Start", "Deliver", "Done"}), f_T01)
    G(r, "given up and begun again", two("A", "B", "-", "-", MaxWire=3, Kinds={"Start", "Deliver", "Done", "Renew"}), f_T01, limit=r.pick(400, None), maxlevel=r.pick(7, None))
    sims(r, f_T01, 40, 500)
    if not r.quick:
        G(r, "unpinned, two forgeries", two("A", "B", "-", "-", MaxWire=3, MaxForge=2, Kinds={"Start", "Deliver", "Done", "Forge", "EvilResp"}), f_T01)
        traces(r, f_T01, 20)
@check("T02")
def T02(r):
    G(r, "one connection", two("A", "B", "-", "-"), f_T02)
    G(r, "pinned", two("A", "B", "B", "A", MaxWire=4), f_T02)
    G(r, "modified handshakes", two("A", "B", "-", "-", mb="yes", MaxWire=3, Tampers=TAMP, Kinds={"Start", "Deliver", "Done", "Tx"}), f_T02, limit=r.pick(500, None))
    G(r, "three endpoints, mixed handshakes", C(Ends={"a", "b", "c"}, Id={"a": "A", "b": "B", "c": "B"}, Pin={"a": "-", "b": "A", "c": "A"}, Mode={"a": "yes", "b": "yes", "c": "yes"}, Evo={"a": 2, "b": 3, "c": 3}, MaxWire=4, MaxSeqT=1), f_T02, limit=r.pick(400, None), maxlevel=r.pick(7, None))
    G(r, "different bytes, same meaning", two("A", "B", "-", "-", "yes", "yes", MaxWire=r.pick(4, 5), Kinds={"Start", "Deliver", "Twin", "Tx"}), f_T02, limit=r.pick(500, 20000), maxlevel=r.pick(7, None))
    G(r, "re-attributed", two("A", "B", "-", "-", "yes", "yes", MaxWire=4, Kinds={"Start", "Deliver", "Forge", "EvilResp", "Tx"}), f_T02, limit=r.pick(400, None), maxlevel=r.pick(7, None))
    sims(r, f_T02, 40, 500)
    traces(r, f_T02, r.pick(2, 20))
@check("T03")
def T03(r):
    known_hang(r)
    G(r, "one connection", two("A", "B", "-", "-", "yes", "yes", MaxWire=5, MaxSeqT=3, Kinds={"Start", "Deliver", "Tx"}), f_T03)
    G(r, "modified packets", two("A", "B", "B", "A", MaxWire=4, Tampers=TAMP, Kinds={"Start", "Deliver", "Tx", "RxNull"}), f_T03, limit=r.pick(600, None), maxlevel=r.pick(8, None))
    G(r, "three endpoints", C(Ends={"a", "b", "c"}, Id={"a": "A", "b": "B", "c": "B"}, Pin={"a": "-", "b": "A", "c": "A"}, Mode={"a": "yes", "b": "yes", "c": "yes"}, Evo={"a": 2, "b": 3, "c": 3}, MaxWire=4, MaxSeqT=1), f_T03, limit=r.pick(300, None), maxlevel=r.pick(7, None))
    sims(r, f_T03, 60, 800)
    traces(r, f_T03, r.pick(2, 20))
def known_hang(r):
    """A data packet whose sequence number was raised beyond any sensible value: finding T03-seq-hang."""
    ad = Adapter(random.Random(1), two("A", "B", "-", "-", "yes", "yes"))
    cmds = ["reset"] + ad.setup() + ["tp_start a", "tp_rx b w1", "tp_rx a w2", "buf m rand 20", "tp_tx a m", "mutate tmp w3 flip 8 1", "tp_rx b tmp", "tp_q b"]
    res, crash = run_sut(cmds, 6)
    r.rep.add(known_finding_runs=1)
    if crash and "timeout" in crash and len(res) == len(cmds) - 2: r.finding("seq-hang", "the endpoint does not return from a data packet with a hugely increased sequence number", {"commands": cmds})
    elif crash: r.rep.violation("a data packet with a hugely increased sequence number: " + crash, {"commands": cmds})
    elif "rx" in res[-2].get("cb", []) or res[-2].get("st") != "ERROR": r.rep.violation("a data packet with a changed sequence number does not end in the error state", {"commands": cmds, "observed": res[-2]})
@check("T04")
def T04(r):
    K4 = {"Start", "Deliver", "Done", "Tx", "TxNull", "RxNull", "TxFault", "Recopy"}
    G(r, "one connection", two("A", "B", "-", "-", MaxWire=3, Kinds=K4), f_T04)
    G(r, "approving", two("A", "B", "-", "-", "yes", "yes", MaxWire=4, Kinds=K4), f_T04)
    G(r, "rejecting", two("A", "B", "-", "-", "no", "no", MaxWire=2, Kinds=K4), f_T04)
    G(r, "modified", two("A", "B", "-", "-", mb="yes", MaxWire=2, Tampers=TAMP, Kinds=K4), f_T04)
    G(r, "forged", two("A", "B", "-", "A", MaxWire=3, Kinds={"Start", "Deliver", "Done", "EvilResp", "Tx", "RxNull"}), f_T04, limit=r.pick(500, None), maxlevel=r.pick(8, None))
    sims(r, f_T04, 40, 500)
@check("T05")
def T05(r):
    K5 = {"Start", "Deliver", "Done", "Tx", "TxNull", "RxNull", "TxFault"}
    G(r, "one connection", two("A", "B", "-", "-", MaxWire=3, Kinds=K5), f_T05)
    G(r, "approving", two("A", "B", "-", "-", "yes", "yes", MaxWire=4, Kinds=K5), f_T05)
    G(r, "rejecting", two("A", "B", "-", "-", "no", "no", MaxWire=2, Kinds=K5), f_T05)
    G(r, "pinned", two("A", "B", "B", "A", MaxWire=4, Kinds=K5), f_T05)
    G(r, "given up and begun again", two("A", "B", "-", "-", "yes", "later", MaxWire=r.pick(2, 3), Kinds={"Start", "Deliver", "Done", "Tx", "RxNull", "Renew"}), f_T05, limit=r.pick(400, None))
    G(r, "mixed", two("A", "B", "B", "-", mb="no", MaxWire=3, Kinds=K5), f_T05)
    G(r, "modified", two("A", "B", "-", "-", mb="yes", MaxWire=2, Tampers=TAMP, Kinds=K5), f_T05)
    G(r, "bad root keys", two("A", "B", "-", "-", MaxWire=3, Kinds={"Start", "Deliver", "Done", "EvilResp"}), f_T05)
    G(r, "no private keys", two("P", "B", "-", "-", ma="yes", mb="yes", MaxWire=3, Kinds=K5), f_T05)
    sims(r, f_T05, 40, 500)
    traces(r, f_T05, r.pick(2, 20))
@check("T06")
def T06(r):
    for ea, eb in ([(2, 3), (3, 1)] if r.quick else [(2, 3), (3, 1), (1, 1), (512, 2), (5, 32768)]):
        G(r, "key periods %d and %d" % (ea, eb), two("A", "B", "-", "A", "yes", "yes", Evo={"a": ea, "b": eb}, MaxWire=8, MaxSeqT=4, Kinds={"Start", "Tx", "Deliver"}), f_T06, limit=r.pick(150, 2000), maxlevel=9)
    G(r, "periods of the peer's choice", two("A", "B", "-", "-", "yes", "yes", MaxWire=3, Kinds={"Start", "Deliver", "EvilResp"}), f_T06)
    G(r, "three endpoints", C(Ends={"a", "b", "c"}, Id={"a": "A", "b": "B", "c": "B"}, Pin={"a": "-", "b": "A", "c": "A"}, Mode={"a": "yes", "b": "yes", "c": "yes"}, Evo={"a": 2, "b": 3, "c": 3}, MaxWire=4, MaxSeqT=1), f_T06, limit=r.pick(300, None), maxlevel=r.pick(7, None))
    G(r, "given up and begun again", two("A", "B", "-", "A", "later", "yes", MaxWire=4, MaxSeqT=1, Kinds={"Start", "Deliver", "Done", "Tx", "Renew"}), f_T06, limit=r.pick(500, 10000), maxlevel=r.pick(7, None))
    for ea, eb, runs in [(2, 1, {700}), (1, 512, {511, 1, 1200}), (4, 32768, {32767, 1, 33000}), (32768, 3, {500})]:
        G(r, "runs, %d and %d" % (ea, eb), two("A", "B", "-", "-", "yes", "yes", Evo={"a": ea, "b": eb}, MaxWire=2, MaxSeqT=100000, Runs=runs, Kinds={"Start", "Deliver", "Burst"}), f_T06, maxlevel=7, limit=r.pick(3, 30), maxlen=12)
    sims(r, f_T06, 60, 800)
    traces(r, f_T06, r.pick(2, 20))
@check("T07")
def T07(r):
    def PG(label, c, **kw): r.graph(label, "TPacket", PAdapter, c, {}, f_T07, (), TPP, **kw)
    ALLX = {"0", "1", "lo", "mid", "hi", "max"}; BOD = {"one", "mid", "big"}
    PG("layout and parsing", PK(Bodies=BOD, Signers={"A"}, Verifiers={"A"}, Kinds={"Make", "Sign", "Ser", "Parse"}, Xs=ALLX, Vers={0, 1, 2, 255}, Macs={0, 1, 2, 3, 15}), repeat=r.pick(1, 6))
    PG("changed bytes", PK(Signers={"A"}, Verifiers={"A"}, Xs={"0", "mid"}, Macs={0, 1, 2, 7}, Bodies=BOD), repeat=r.pick(1, 8))
    PG("signatures", PK(Xs={"1", "max"}, Vers={1, 200}, Macs={0}, Muts={"x", "ver", "body", "last", "type", "mactype", "swap", "cut", "ext"}), repeat=r.pick(1, 6))
    if not r.quick: PG("any order", PK(Linear=False), limit=30000)
    c = PK(Pks={"p", "q"}, Xs={"0", "1", "lo", "mid", "hi", "max"}, Vers={0, 1, 2, 255}, Bodies={"one", "mid", "big"}, Macs=set(range(16)), MaxSteps=60, Linear=False, Kinds={"Make", "Sign", "Verify", "Ser", "Parse", "Mut", "Copy"})
    r.sim("random", "TPacket", PAdapter, c, {}, f_T07, r.pick(100, 1500), 40)
    G(r, "in connections", two("A", "B", "-", "-", mb="yes", MaxWire=2, Tampers=TAMP, Kinds={"Start", "Deliver"}), f_T07)
