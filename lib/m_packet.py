"""Packet.tla <-> wickr_ctx_encode_packet / parse / decode."""
from mbt import *
from checks import check

CROWD = 0xC0FFEE0000000000        # key identifiers of strangers
def cxname(c): return "x_" + c
class Adapter:
    """Contexts, devices and keys are made afresh for every behaviour; payload values are drawn from boundary sets."""
    def __init__(self, rnd, opts):
        self.rnd, self.o = rnd, opts
        self.n = 0; self.pay = {}; self.ids = {}; self.bodies = {}; self.pairs = set(); self.nodes = {}; self.claims = {}; self.rows = []
    def setup(self):
        o, r = self.o, self.rnd; c = []
        for a in sorted(set(o["Acct"].values())): c += ["rk_gen rk_" + a, "buf id_%s rand %d" % (a, r.choice([1, 16, 32, 32, 100, 127]))]
        for d in sorted(set(o["Dev"].values())): c += ["buf sys_%s rand 32" % d, "di_make dv_%s sys_%s" % (d, d)]
        made = {}
        for x in sorted(o["Ctx"]):
            a, n, d = o["Acct"][x], o["Node"][x], o["Dev"][x]
            if n in made: c += ["cx_ser sx %s" % cxname(made[n]), "cx_from %s sx dv_%s" % (cxname(x), d)]      # restored on another device
            else: c.append("cx_gen %s rk_%s dv_%s id_%s" % (cxname(x), a, d, a)); made[n] = x
        self.kid = {}
        for x, k in sorted(o["Keys"]):
            while True:
                i = r.choice([r.randrange(1 << 64), r.randrange(1 << 8), (1 << 63) + r.randrange(99), r.randrange(1 << 32)])
                if i not in self.kid.values(): break
            self.kid[(x, k)] = i
            c += ["ek_gen e_%s%d %s %d" % (x, k, cxname(x), i), "ek_key ek_%s%d e_%s%d" % (x, k, x, k), "ec_form ekp_%s%d ek_%s%d pub" % (x, k, x, k)]
        if r.random() < .6:       # identifiers that are alike: each the beginning of the next, or different in one bit
            stem = bytes(r.randrange(256) for _ in range(127)); how = r.choice(["prefix", "prefix", "last", "first"]); ns = sorted(set(o["Node"].values())); r.shuffle(ns); L = r.choice([8, 16, 32, 64])
            for i, n in enumerate(ns):
                b = stem[:L + i] if how == "prefix" else stem[:L - 1] + bytes([stem[L] ^ i]) if how == "last" else bytes([stem[0] ^ i]) + stem[1:L]
                c.append("buf nid_%s hex %s" % (n, b.hex()))
            c += ["cx_nid %s nid_%s" % (cxname(x), o["Node"][x]) for x in sorted(o["Ctx"])]
        seen = {}
        for x in sorted(o["Ctx"]): seen[o["Node"][x]] = x
        self.show = ["cx_show " + cxname(x) for x in sorted(seen.values())]; self.shown = [o["Node"][x] for x in sorted(seen.values())]
        return c
    def node(self, d, c):
        key = (d["c"], d["k"], d["d"], d["a"], d["bad"])
        if key not in self.nodes:
            s = self.nodes[key] = "n%d" % len(self.nodes); b = d["bad"]
            if b == "null": self.nodes[key] = "-"; return "-"
            other = sorted(x for x in self.o["Ctx"] if self.o["Acct"][x] != self.o["Acct"][d["c"]])[0]
            if b == "key": c += ["ek_gen ebad_%s %s 77" % (s, cxname(other))]
            c.append("nd_of %s %s %s %s%s" % (s, cxname(d["c"]), "-" if b == "none" else "ebad_" + s if b == "key" else "e_%s%d" % (d["c"], d["k"]), cxname(d["d"]), " " + cxname(other) if b == "chain" else " +" + cxname(d["a"]) if d["a"] != d["c"] else ""))
            if b == "stalekey": c += ["ek_gen ebad_%s %s 77" % (s, cxname(other)), "nd_stale %s ebad_%s -" % (s, s)]
            if b == "stalechain": c.append("nd_stale %s - %s" % (s, cxname(other)))
        return self.nodes[key]
    def claim(self, cl, c):
        k = (cl["rk"], cl["rid"], cl["n"])
        if k not in self.claims:
            self.claims[k] = "cl%d" % len(self.claims)
            c.append("claim %s %s %s %s" % ((self.claims[k],) + tuple(cxname(x) for x in k)))
        return self.claims[k]
    def cmds(self, v):
        r, op, c = self.rnd, v["op"], []
        if op == "Encode":
            ns = [self.node(d, c) for d in v["r"]]
            good = v["r"] and all(d["bad"] == "" for d in v["r"]) and v["ver"] in (2, 3, 4)
            t = "t%d" % len(self.rows); self.rows.append(t)
            e = (r.choice([0, 1, 3600, 2**32, 2**64 - 1, r.randrange(2**64)]), r.choice([0, 0, 1, 60, 2**63, 2**64 - 1]), r.choice([0, 1, 7, 255, 256, 65535, r.randrange(65536)]))
            c += ["buf tag_%s rand %d" % (t, r.choice([1, 8, 32, 64])), "buf bod_%s rand %d" % (t, r.choice([8, 9, 100, 1000, 16384, 60000])) if r.random() < .9 else "buf bod_%s hex %02x" % (t, r.randrange(256)), "pl_make pl_%s %d %d %d tag_%s bod_%s" % ((t,) + e + (t, t)),
                  "cx_ver %s %d" % (cxname(v["s"]), v["ver"]), "buftok tag_" + t, "buftok bod_" + t] + self.show
            if good: self.n += 1
            self.last = (t, e)
            forged = "Forge" in self.o["Kinds"]         # members exchange the first two recipients' keys: there must be two, and they come first
            if len(ns) > forged and r.random() < self.o.get("crowd", .12):        # among many others
                k = r.choice([1, 5, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 40]); j = r.randrange(2 * forged, len(ns) + 1)
                ns = ns[:j] + ["*%d" % k] + ns[j:]; self.crowd[len(self.seq)] = k
            c += ["pk_encode %s %s pl_%s %s" % ("p%d" % self.n if good else "pbad", cxname(v["s"]), t, " ".join(ns))]
            if good: self.pay[self.n] = e
            return c
        if op in ("Tamper", "Splice", "Forge", "Junk"): self.n += 1; d = "p%d" % self.n
        if op == "Tamper":
            s = "p%d" % v["p"]; w = v["w"]; L = 143
            m = {"content": lambda: "flip -%d %d" % (L + 1 + r.choice([0, 1, 50, r.randrange(60), r.randrange(200)]), 1 << r.randrange(8)),
                 "sig": lambda: "flip -%d %d" % (r.choice([1, 2, 5, 60, 70, 100, r.randrange(1, 128)]), 1 << r.randrange(8)),
                 "v2": lambda: "set 0 02", "v3": lambda: "set 0 03", "v4": lambda: "set 0 04", "vbad": lambda: "set 0 %02x" % r.choice([0, 1, 5, 6, 128, 255]),
                 "curve": lambda: "set 1 %02x" % r.choice([1, 2, 3, 7, 0xf, 0x13, 0xff]), "hi": lambda: "flip 1 %d" % r.choice([16, 32, 128, 240]),
                 "cut": lambda: "trunc %d" % r.choice([1, 2, 3, 100, 144, 145]), "trunc": lambda: "trunc -%d" % r.choice([1, 2, 10]), "ext": lambda: "ext 00" * 1,
                 "mid": lambda: "cut %d 1" % r.choice([2, 3, 20, 60])}
            if w == "round": return ["pk_round %s %s" % (d, s)]
            return ["mutate %s %s %s" % (d, s, m[w]())]
        if op == "Splice": return ["pk_splice %s p%d p%d" % (d, v["p"], v["q"])]
        if op == "Junk": return ["buf jk rand %d" % r.choice([1, 2, 50, 300]) if v["g"] == "256" or r.random() < .7 else "buf jk hex 0a00", "pk_signraw %s %s jk %s" % (d, cxname(v["s"]), v["g"])]
        if op == "Forge":
            own = self.hown[v["a"]]; key = self.pkey[v["b"]]
            return ["pk_forge %s %s %d %s p%d %s %s p%d p%dk" % (d, cxname(v["s"]), v["ver"], v["h"], v["a"], cxname(own), v["y"], v["b"], key)]
        if op == "Open":
            cl = self.claim(v["cl"], c); k = "%s_%s%d" % ("ek" if v["kf"] == "pri" else "ekp", v["k"][0], v["k"][1])
            c += ["mp_parse q %s %s p%d %s" % (v["api"], cxname(v["c"]), v["p"], cl), "pk_decode dr %s q %s%s" % (cxname(v["d"]), k, " copy" if r.random() < .2 else "")]
            return c
    def observe(self, v, r):
        op = v["op"]; x = r[-1]
        if op == "Encode":
            if not x["r"]: return {"r": False}, {}
            k = self.crowd.get(self.oi - 1, 0)
            prs = [tuple(p) for p in x["enc"]]
            reuse = len(set(prs)) < len(prs) or any(p in self.pairs for p in prs) or len(prs) != len(v["r"]) + k + 2
            self.pairs.update(prs)
            i = len(self.bodies) + 1
            toks = [y for y in r if "len" in y]
            t, e = toks[0]["t"], None
            self.bodies[x["key"]] = (self.seqno, toks[-2]["t"], toks[-1]["t"]) + self.pays[self.seqno]
            for y, n in zip([y for y in r if "nid" in y], self.shown): self.ids[y["nid"]] = n
            return {"r": True, "n": x["n"] - k, "ver": x["ver"], "auth": x["auth"], "sealed": x["sealed"], "leak": x["leak"], "reuse": reuse}, {k: x[k] for k in ("key", "eph", "hiv", "piv", "hdr", "pay")}
        if op in ("Tamper", "Splice", "Forge", "Junk"): return {"r": x["r"] and (x.get("same", True) or v.get("p") in self.hi)}, {}
        p, d = r[-2], r[-1]
        mis = self.mis.get(v["p"])
        parse = "none" if not p["r"] else p["sig"] + "/" + p["err"]
        if mis and parse in ("none", "invalid/mac"): parse = "refused"
        rv = {i: k for k, i in self.kid.items()}
        out = {"parse": parse, "clean": not p.get("fail", False) and not (d["r"] and d["err"] != "ok" and (d["pay"] or d["key"])), "rcpt": [], "kid": ["", 0], "dec": "null", "body": 0, "key": 0}
        if p["r"]:
            out["rcpt"] = [[self.ids.get(t, "?")] + list(rv.get(k, ("?", 0))) for t, k in p["rcpt"] if k < CROWD or k >= CROWD + 99]
            if p["kex"]: out["kid"] = list(rv.get(p["kid"], ("?", 0)))
        if d["r"]:
            out["dec"] = d["err"]
            if d["err"] == "ok":
                b = self.bodies.get(d["key"])
                out["key"] = b[0] if b else -1
                out["body"] = b[0] if b and (d["tag"], d["body"], d["ttl"], d["bor"], d["type"]) == b[1:] else -1
        return out, {}

class A(Adapter):
    """Adds the bookkeeping that both halves (commands, observations) need by packet number."""
    def __init__(self, rnd, opts):
        super().__init__(rnd, opts); self.hown, self.pkey, self.mis, self.pays = {}, {}, {}, {}; self.hi = set(); self.seq = []; self.oi = 0; self.crowd = {}
    def cmds(self, v):
        op = v["op"]; n0 = self.n
        c = super().cmds(v)
        if self.n > n0:
            i = self.n
            if op == "Encode": self.hown[i] = v["s"]; self.pkey[i] = i; self.pays[i] = self.pay[i]
            elif op == "Junk": self.hown[i] = v["s"]; self.pkey[i] = 0
            elif op == "Forge":
                self.hown[i] = self.hown[v["a"]] if v["h"] == "of" else v["s"]; self.pkey[i] = self.pkey[v["b"]]
            elif op in ("Tamper", "Splice"): self.hown[i] = self.hown[v["p"]]; self.pkey[i] = self.pkey[v["p"]]; self.mis[i] = op == "Tamper" and v["w"] in ("trunc", "ext", "mid")
            if v.get("w") == "hi" or v.get("p") in self.hi: self.hi.add(i)        # version 2 ignores the high half of byte 1; re-serialising clears it
        self.seq.append(self.n)
        return c
    def observe(self, v, r):
        self.seqno = self.seq[self.oi]; self.oi += 1
        return super().observe(v, r)

def d(c, k=1, dv=None, bad="", a=None): return {"c": c, "k": k, "d": dv or c, "a": a or c, "bad": bad}
def cl(n, rk=None, rid=None): return {"rk": rk or n, "rid": rid or n, "n": n}
CTX = {"A1": ("A", "a1", "d1"), "A2": ("A", "a2", "d2"), "B1": ("B", "b1", "d3"), "B2": ("B", "b2", "d4"), "B1x": ("B", "b1", "d4"), "C1": ("C", "c1", "d5")}
class Fs(dict):
    def __hash__(self): return hash(json.dumps(self, sort_keys=True))
def W(names, keys, rcpts, claims, **kw):
    c = dict(Ctx=set(names), Acct={n: CTX[n][0] for n in names}, Node={n: CTX[n][1] for n in names}, Dev={n: CTX[n][2] for n in names},
             Keys=set(keys), Senders={"A1"}, Rcpts=Raw("{" + ", ".join(tla(x) for x in rcpts) + "}"), Vers={2, 3, 4}, Claims=Raw("{" + ", ".join(tla(x) for x in claims) + "}"),
             Apis={"ctx", "nodecode", "stateless"}, Ways=set(), HModes=set(), PModes=set(), FVers={4}, MaxPk=1, MaxGen=9, Kinds={"Encode", "Open"}, Loose=True)
    c.update(kw); return c
PROPS = ["OnlyAddressed", "SameBody", "Delivered", "OnlySigned", "Bound", "Trusted", "FailSafe"]
ALLW = {"content", "sig", "v2", "v3", "v4", "vbad", "curve", "hi", "cut", "trunc", "ext", "mid", "round"}
ALLH = {"of", "rekey", "swap", "ctr", "junk", "badtag", "empty"}
ALLP = {"of", "junk", "badtag", "ctr", "short", "nometa"}
BAD = [[], [d("B1", bad="chain")], [d("B1", bad="key")], [d("B1", bad="none")], [d("B1"), d("C1", bad="key")], [d("C1", bad="chain"), d("B1")], [d("B1"), d("C1", bad="null")], [d("B1", bad="null")], [d("B1"), d("B2"), d("C1", bad="none")], [d("B1"), d("C1", bad="chain"), d("B2")],
       [d("B1", bad="stalekey")], [d("B1", bad="stalechain")], [d("B1"), d("C1", bad="stalekey")], [d("C1", bad="stalechain"), d("B1")]]
VOUCH = [[d("B1", a="C1")], [d("C1", a="B1"), d("B1")], [d("B1", a="A1")], [d("B1", a="C1"), d("B1")]]
GOOD = [[d("B1")], [d("B1"), d("C1")], [d("C1"), d("B1", 2)], [d("B1x")], [d("B1", 1, "B2")], [d("B1"), d("B1", 2)], [d("B1"), d("B2"), d("C1")], [d("A1")]]
NM5 = ["A1", "B1", "B2", "B1x", "C1"]
def who(r, focus, lim, rep):
    c = W(NM5, [("B1", 1), ("B1", 2), ("B1x", 1), ("C1", 1), ("A1", 1)], [[d("B1")], [d("B1"), d("C1")], [d("C1"), d("B1", 2)], [d("B1x")], [d("B1", 1, "B2")], [d("B1"), d("B1", 2)], [d("A1")]], [cl("A1"), cl("C1")])
    r.graph("who opens", "Packet", A, c, c, focus, ["Fresh"], PROPS, limit=lim, repeat=rep)
def attribute(r, focus, lim, rep, apis={"ctx"}):
    c = W(["A1", "A2", "B1", "C1"], [("B1", 1), ("C1", 1)], [[d("B1")], [d("B1", a="C1")], [d("B1", a="A1")]], [cl("A1"), cl("A2"), cl("C1"), cl("A1", rk="C1"), cl("A1", rid="C1"), cl("A2", rk="A1"), cl("C1", rid="A1"), cl("A1", rk="B1", rid="B1")],
          Ways={"v2", "v3", "v4", "hi", "round", "vbad", "curve"}, MaxPk=2, Kinds={"Encode", "Open", "Tamper"}, Apis=apis)
    r.graph("attribution and version", "Packet", A, c, c, focus, ["Fresh"], PROPS, limit=lim, repeat=rep)
def bytesx(r, focus, lim, rep):
    c = W(["A1", "B1", "C1"], [("B1", 1)], [[d("B1")]], [cl("A1"), cl("C1")], Senders={"A1", "C1"}, Vers={2, 4}, Ways=ALLW - {"v2", "v3", "v4"}, MaxPk=3, MaxGen=2, Kinds={"Encode", "Open", "Tamper", "Splice", "Junk"}, Apis={"ctx"}, Loose=False)
    r.graph("changed and spliced bytes", "Packet", A, c, c, focus, ["Fresh"], PROPS, limit=lim, repeat=rep)
def member(r, focus, lim, rep, apis={"ctx"}, h=ALLH, y=ALLP):
    c = W(["A1", "B1", "C1"], [("B1", 1), ("C1", 1)], [[d("B1")], [d("B1"), d("C1")]], [cl("A1"), cl("C1")], Senders={"A1", "C1"}, Vers={4}, HModes=h, PModes=y, MaxPk=3, MaxGen=2, Kinds={"Encode", "Open", "Forge"}, Apis=apis, Loose=False)
    r.graph("assembled by a member", "Packet", A, c, c, focus, ["Fresh"], PROPS, limit=lim, repeat=rep)
def trust(r, focus, lim, rep):
    c = W(NM5, [("B1", 1), ("B1", 2), ("B2", 1), ("B1x", 1), ("C1", 1), ("A1", 1)], GOOD + VOUCH + BAD, [cl("A1")], Senders={"A1", "C1"}, Vers={0, 1, 2, 3, 4, 5, 255}, MaxPk=r.pick(1, 2), Apis={"nodecode"}, Kinds={"Encode"})
    r.graph("recipients and versions", "Packet", A, c, c, focus, ["Fresh"], PROPS, limit=lim, repeat=rep, maxlen=12)
def anything():
    return W(NM5 + ["A2"], [(x, k) for x in NM5 + ["A2"] for k in (1, 2)], GOOD + VOUCH + BAD, [cl("A1"), cl("B1"), cl("C1"), cl("A2"), cl("A1", rk="C1"), cl("A1", rid="C1"), cl("B1", rk="A1")],
          Senders={"A1", "B1", "C1"}, Vers={2, 3, 4, 4, 5}, Ways=ALLW, HModes=ALLH, PModes=ALLP, FVers={2, 3, 4}, MaxPk=12, Kinds={"Encode", "Open", "Tamper", "Splice", "Forge"})
def rand(r, focus, num, depth=30):
    c = anything(); r.sim("random", "Packet", A, c, c, focus, num, depth)
op = lambda d, *o: "crash" in d.got or d.a["ev"]["op"] in o
fo = lambda d: op(d, "Open")
@check("M01")
def M01(r):
    who(r, fo, r.pick(600, None), r.pick(1, 1)); rand(r, fo, r.pick(60, 1500))
@check("M02")
def M02(r):
    bytesx(r, fo, r.pick(6000, None), r.pick(1, 4)); member(r, fo, r.pick(1000, None), 1); rand(r, fo, r.pick(40, 1000))
@check("M03")
def M03(r):
    attribute(r, fo, r.pick(700, None), r.pick(1, 4)); rand(r, fo, r.pick(40, 1000))
@check("M04")
def M04(r):
    f = lambda d: op(d, "Encode")
    trust(r, f, r.pick(3000, None), r.pick(1, 3))
    member(r, lambda d: op(d) or op(d, "Open") and d.a["obs"]["dec"] != "ok" and d.got.get("dec") == "ok", r.pick(300, None), 1, {"ctx", "stateless"}, {"of", "rekey", "ctr"}, {"of", "ctr"})
    rand(r, lambda d: op(d, "Encode") or fo(d) and d.a["obs"]["rcpt"] != d.got.get("rcpt"), r.pick(40, 600))
@check("M05")
def M05(r):
    member(r, fo, r.pick(2500, None), r.pick(1, 3), {"ctx", "nodecode", "stateless"}); bytesx(r, fo, r.pick(200, None), 1); rand(r, fo, r.pick(40, 1000))
@check("M06")
def M06(r):
    f = lambda d: op(d, "Encode")
    c = W(["A1", "A2", "B1", "C1"], [("B1", 1), ("C1", 1)], [[d("B1")], [d("B1"), d("C1")], [d("B1"), d("B1")]], [cl("A1")], Senders={"A1", "A2"}, Vers={2, 4}, MaxPk=3, Kinds={"Encode"})
    r.graph("fresh for every packet", "Packet", A, c, c, f, ["Fresh"], PROPS, repeat=r.pick(1, 5))
    c = W(["A1", "A2", "B1", "C1"], [("B1", 1), ("C1", 1)], [[d("B1")], [d("B1"), d("C1")]], [cl("A1")], Senders={"A1", "A2"}, Vers={2, 3, 4}, MaxPk=60, MaxGen=60, Kinds={"Encode"})
    r.sim("many packets", "Packet", A, c, c, f, r.pick(8, 60), 60, events="Events")
