"""Stream.tla <-> wickr_stream_ctx_*."""
from mbt import *

class Adapter:
    """Maps abstract sequence numbers monotonically to real ones, preserving key periods."""
    def __init__(self, rnd, opts):
        self.rnd = rnd; self.o = opts
        self.keys = opts["keys"]; self.ppe = opts["ppe"]
        self.real, self.eps, self.offs = {}, {}, {}
        for k in self.keys:
            P = self.ppe[k]
            prof = rnd.choice(opts.get("profiles", ["same", "mid", "big"]))
            if prof == "same" or (P == 1 and rnd.random() < .5): R = P
            elif P == 1: R = 1
            elif prof == "mid": R = rnd.choice([x for x in (2, 3, 4, 7, 10, 16, 64, 100, 255, 256, 257, 512) if x >= P])
            elif prof == "huge": R = 32768
            else: R = rnd.choice([512, 1000, 4096, 32767, 32768])
            self.real[k] = R
            offs = [0] + sorted(rnd.sample(range(1, R), P - 1)) if R > P else list(range(P))
            if P > 1 and R > P and rnd.random() < .7: offs[-1] = R - 1
            if P > 2 and R > P and rnd.random() < .5: offs[1] = 1 if P > 2 and offs[2] > 1 else offs[1]
            self.offs[k] = offs
            ne = opts["maxseq"] // P + 2
            base, e = [0], 0
            for i in range(ne):
                e += rnd.choice([1, 1, 1, 2, 3, 5] if prof != "same" else [1]); base.append(e)
            if opts.get("huge") and R == 32768:   # beyond 32 bits
                j = rnd.choice([(1 << 16) + 5, (1 << 17) - 9, 1 << 17]); at = rnd.choice([1, 1, 2])
                base = [b if i < at else b + j for i, b in enumerate(base)]
            self.eps[k] = base
        self.lens = {}
        self.n = 0; self.ctxkey = {}; self.tries = 0; self.many = {}; self.manylast = 0; self.inc = {}; self.okey = {}; self.root = {}; self.roots = 0
    def seq(self, k, s):
        P = self.ppe[k]
        return self.eps[k][s // P] * self.real[k] + self.offs[k][s % P]
    def setup(self):
        c = []
        for k in self.keys: c.append("skey key_%s GCM %d" % (k, self.real[k]))
        c += ["buf aad_a1 rand 24", "mutate aad_a2 aad_a1 flip %d 1" % self.rnd.randrange(24), "mutate aad_a3 aad_a1 trunc %d" % self.rnd.choice([1, 16, 23]), "mutate aad_a4 aad_a1 ext 00"]
        return c
    def aad(self, a): return "-" if a == "a0" else "aad_" + a
    def cmds(self, e):
        op = e["op"]
        if op == "New":
            self.ctxkey[e["c"]] = e["k"]
            src = "key_" + e["k"]
            pre = []
            r = self.rnd.random()
            if r < .25: pre = ["skey_round ktmp " + src]; src = "ktmp"
            elif r < .5: pre = ["skey_copy ktmp " + src]; src = "ktmp"
            return pre + ["st_new %s %s %s" % (e["c"], src, e["d"])]
        if op == "Ref": return ["st_ref " + e["c"]]
        if op == "Rel": return ["st_rel " + e["c"]]
        if op == "Copy":
            self.ctxkey[e["f"]] = self.ctxkey[e["c"]]
            return ["st_copy %s %s" % (e["f"], e["c"])]
        if op == "Enc":
            self.tries += 1
            ln = self.rnd.choice([1, 2, 8, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 1000, 4096, 20000])
            return ["buf msg%d rand %d" % (self.tries, max(ln, 8)),
                    "st_enc %s newct msg%d %s %d" % (e["c"], self.tries, self.aad(e["aad"]), self.seq(self.ctxkey[e["c"]], e["s"])),
                    "buftok msg%d" % self.tries, "push newct ct"]
        if op == "Dec":
            k = self.ctxkey[e["c"]]
            return ["st_dec %s ct%d %s %d %s" % (e["c"], e["i"], self.aad(e["aad"]), self.seq(k, e["s"]), e["t"])]
        if op == "EncFault":
            return ["faultop enc", "buf mf rand 20", "st_enc %s newct mf %s %d" % (e["c"], self.aad(e["aad"]), self.seq(self.ctxkey[e["c"]], e["s"])), "faultop -", "drop newct"]
        if op == "Many":
            k = self.ctxkey[e["c"]]; self.manylast = self.manylast if e["c"] in self.many else 0
            first = self.many.get(e["c"], 0) + 1; self.many[e["c"]] = first + e["n"] - 1
            return ["st_many %s %s %d %d" % (e["c"], e["f"], first, e["n"])]
        raise CheckError("op " + op)
    def abs_last(self, c, last):
        k = self.okey[c]; P = self.ppe[k]
        for s in range(0, self.o["maxseq"] + P):
            if s // P < len(self.eps[k]) and self.seq(k, s) == last: return s
        return "real %d" % last
    def space(self, s):      # a slot used again is another stream
        if s.startswith("kiv-"): return "%s#%d" % (s, self.inc.get(s[4:], 0))
        if s.startswith("root-"): return "root#%d" % self.root.get(s[5:], 0)      # a copy shares the nonces of its original
        return s
    def observe(self, e, r):
        op = e["op"]; x = r[-1]
        if op in ("New", "Copy"):
            c = e["c"] if op == "New" else e["f"]
            self.inc[c] = self.inc.get(c, 0) + 1
            if op == "New": self.roots += 1
            self.root[c] = self.roots if op == "New" else self.root.get(e["c"], 0)
            self.okey[c] = e["k"] if op == "New" else self.okey[e["c"]]
        if op == "New": return {"r": x["r"], "last": 0}, {"key": x.get("key", 0)}
        if op == "Ref": return {"r": x["r"]}, {}
        if op == "Rel": return {"alive": x.get("alive", "no stream")}, {}
        if op == "Copy": return {"r": x["r"], "last": self.abs_last(e["c"], x.get("last", -1))}, {"key": x.get("key", 0)}
        if op == "Enc":
            x = r[1]
            return ({"ok": x["ok"], "last": self.abs_last(e["c"], x["last"]), "clear": x["clear"]},
                    {"key": x["key"], "msg": r[2]["t"], "iv": x["iv"], "kiv": "%d/%d" % (x["key"], x["iv"]), "root": "%d/%d" % (x["key"], x["iv"])})
        if op == "EncFault": return {"ok": r[2]["ok"], "last": self.abs_last(e["c"], r[2]["last"])}, {}
        if op == "Many":
            return {"encoded": x["enc"], "decoded": x["dec"], "fresh": x["fresh"], "periods": x["periods"], "last": x["last"]}, {"key": x["key"]}
        if op == "Dec":
            return {"ok": x["ok"], "last": self.abs_last(e["c"], x["last"])}, {"key": x["key"], "msg": x["pt"]}

def _why(d):
    """What the specification says about the diverging event."""
    return d.a["ev"].get("op"), d.a["obs"], d.got

def f_S01(d):
    op, ex, got = _why(d)
    return op in ("Enc", "Dec") and ex.get("ok") in (False, None) and got.get("ok") is True and d.a["ev"].get("t", "none") == "none" or \
        (op in ("Enc", "Dec", "Copy") and isinstance(got.get("last"), (int, str)) and got["last"] != ex.get("last") and ex.get("ok") is not False)
def f_S02(d):
    op, ex, got = _why(d)
    if "crash" in got: return True
    return op in ("Enc", "Dec", "New", "Copy") and ((ex.get("ok") is True) or any("key" in str(x) for x in d.diffs))
def f_S03(d):
    return any(str(x).startswith(("iv ", "kiv ", "root ")) for x in d.diffs)
def f_S04(d):
    op, ex, got = _why(d)
    if "crash" in got: return True
    return op == "Dec" or op == "Enc"
def f_S05(d): return True

# ------------------------------------------------------------------------------- scenarios
from checks import check
INV = ["TypeOK"]
PROPS = ["ForwardOnly", "SuccessMovesForward", "PeriodForward", "DecodesInStep", "RefusalIsNoop", "Isolation", "OnlyReleaseEnds"]
TALL = {"none", "ct", "tag", "iv", "len", "notag", "ctr", "ext", "swaptag"}
def K(**kw):
    d = dict(Keys={"k1"}, Ppe={"k1": 2}, Ctx={"e", "d"}, MaxSeq=4, MaxCts=2, MaxRefs=1, Aads={"a1"}, Tampers={"none"}, Runs={1}, Kinds={"New", "Enc", "Dec"})
    d.update(kw); return d
def O(c, **kw):
    d = dict(keys=sorted(c["Keys"]), ppe=c["Ppe"], maxseq=c["MaxSeq"], huge=0); d.update(kw); return d
def G(r, label, c, focus, repeat=1, limit=None, maxlen=60, **kw):
    r.graph(label, "Stream", Adapter, c, O(c, **kw), focus, INV, PROPS, repeat=repeat, limit=limit, maxlen=maxlen)
def Sim(r, label, c, focus, num, depth, **kw):
    r.sim(label, "Stream", Adapter, c, O(c, **kw), focus, num, depth, invs=INV)
BIG = dict(Keys={"k1", "k2"}, Ppe={"k1": 3, "k2": 1}, Ctx={"c1", "c2", "c3", "c4"}, MaxSeq=60, MaxCts=24, MaxRefs=3, Aads={"a0", "a1", "a2", "a3", "a4"}, Tampers=TALL)

def gen_events(kinds, n=80, maxseq=60):
    """Random histories chosen without the specification: one encoder, two decoders, a stranger."""
    def g(rnd):
        ev = [{"op": "New", "c": "c1", "k": "k1", "d": "E"}, {"op": "New", "c": "c2", "k": "k1", "d": "D"}]
        if rnd.random() < .5: ev.append({"op": "New", "c": "c3", "k": rnd.choice(["k1", "k2"]), "d": rnd.choice("ED")})
        made, top = 0, 0
        aads = ["a0", "a1", "a2", "a3", "a4"]; sent = []
        for _ in range(n):
            x = rnd.random()
            if x < .4 and made < 20:
                s = rnd.choice([top + 1, top + 1, top + 2, top + 5, max(0, top - 1), top])
                if s > maxseq: continue
                a = rnd.choice(aads)
                if s > top: made += 1; top = s; sent.append((s, a))
                ev.append({"op": "Enc", "c": "c1", "s": s, "aad": a})
            elif sent:
                i = rnd.randrange(max(0, len(sent) - 4), len(sent)) if rnd.random() < .8 else rnd.randrange(len(sent))
                s, a = sent[i]
                t = "none"
                y = rnd.random()
                if y < .15: t = rnd.choice(sorted(TALL))
                elif y < .25: a = rnd.choice(aads)
                elif y < .35 and s < maxseq: s += 1
                ev.append({"op": "Dec", "c": "c2", "i": i + 1, "s": s, "aad": a, "t": t})
        return ev
    return g
def T(r, label, focus, num, **kw):
    c = K(**dict(BIG, Kinds={"New", "Enc", "Dec"}))
    r.trace(label, "Stream", Adapter, c, O(c, **kw), focus, gen_events(None), num)

@check("S01")
def S01(r):
    G(r, "forward-only", K(MaxSeq=5), f_S01)
    G(r, "forward-only two decoders", K(Ctx={"e", "d", "x"}, MaxSeq=3, MaxCts=1, Ppe={"k1": 1}), f_S01)
    Sim(r, "long", K(**dict(BIG, Kinds={"New", "Enc", "Dec", "Copy"})), f_S01, r.pick(80, 600), 80)
    G(r, "beyond 32 bits", K(Ppe={"k1": 2}, MaxSeq=3, MaxCts=2), f_S01, huge=1, profiles=["huge"], limit=r.pick(8, 60), maxlen=40)
    T(r, "recorded", f_S01, r.pick(4, 30))
    if not r.quick: G(r, "forward-only deep", K(MaxSeq=7, MaxCts=3, Ppe={"k1": 3}), f_S01)
@check("S02")
def S02(r):
    for p in (1, 2, 3): G(r, "lock step, %d per period" % p, K(MaxSeq=6, MaxCts=2, Ppe={"k1": p}) if p > 1 else K(MaxSeq=4, Ppe={"k1": 1}), f_S02, repeat=r.pick(1, 4))
    Sim(r, "long", K(**BIG), f_S02, r.pick(120, 1000), 80, huge=0)
    Sim(r, "beyond 32 bits", K(**dict(BIG, Ppe={"k1": 3, "k2": 2}, MaxSeq=12)), f_S02, r.pick(6, 30), 10, huge=1, profiles=["huge", "huge", "same"])
    for ppe, runs in [(1, {1, 700}), (2, {3, 70000}), (512, {511, 1, 1200}), (32768, {32767, 1, 66000}), (7, {300})]:
        c = K(Keys={"k1"}, Ppe={"k1": ppe}, MaxSeq=200000, Runs=runs, Kinds={"New", "Many"})
        r.graph("runs, %d per period" % ppe, "Stream", Adapter, c, O(c, profiles=["same"]), f_S02, INV, PROPS, maxlen=12, maxlevel=5, limit=r.pick(2, 12))
    T(r, "recorded", f_S02, r.pick(4, 30))
@check("S03")
def S03(r):
    G(r, "nonces", K(Ctx={"e", "d", "f"}, MaxSeq=3, MaxCts=3, Ppe={"k1": 2}, Kinds={"New", "Enc", "EncFault"}), f_S03)
    G(r, "nonces of copies", K(Ctx={"e", "f"}, MaxSeq=3, MaxCts=3, Ppe={"k1": 3}, Kinds={"New", "Enc", "Copy"}), f_S03)
    Sim(r, "long", K(**dict(BIG, Kinds={"New", "Enc", "Dec", "Copy", "EncFault", "Rel"}, MaxSeq=200, MaxCts=150)), f_S03, r.pick(60, 400), 150)
    for ppe, runs in [(512, {300, 70000}), (3, {66000, 2}), (32768, {70000})]:
        c = K(Keys={"k1"}, Ppe={"k1": ppe}, MaxSeq=200000, Runs=runs, Kinds={"New", "Many"})
        r.graph("runs, %d per period" % ppe, "Stream", Adapter, c, O(c, profiles=["same"]), f_S03run, INV, PROPS, maxlen=12, maxlevel=5, limit=r.pick(2, 12))
    T(r, "recorded", f_S03, r.pick(4, 30))
def f_S03run(d): return f_S03(d) or any(str(x).startswith("fresh") for x in d.diffs)
@check("S04")
def S04(r):
    G(r, "forgeries", K(MaxSeq=3, MaxCts=2, Ppe={"k1": 2}, Tampers=TALL), f_S04)
    G(r, "other data", K(MaxSeq=4, MaxCts=2, Ppe={"k1": 2}, Aads={"a0", "a1", "a2"}), f_S04)
    G(r, "other keys", K(Keys={"k1", "k2"}, Ppe={"k1": 2, "k2": 2}, MaxSeq=3, MaxCts=2, Ctx={"e", "d"}), f_S04)
    Sim(r, "long", K(**BIG), f_S04, r.pick(120, 1000), 80)
    T(r, "recorded", f_S04, r.pick(4, 30))
@check("S05")
def S05(r):
    C5 = {"New", "Enc", "Dec", "Copy", "Ref", "Rel"}
    G(r, "lifetimes", K(Ctx={"e", "d"}, MaxSeq=2, MaxCts=1, MaxRefs=3, Kinds=C5), f_S05)
    G(r, "three streams", K(Ctx={"e", "d", "f"}, MaxSeq=1, MaxCts=1, MaxRefs=1, Kinds=C5), f_S05)
    if not r.quick: G(r, "three streams, references", K(Ctx={"e", "d", "f"}, MaxSeq=1, MaxCts=1, MaxRefs=2, Kinds=C5), f_S05)
    Sim(r, "long", K(**dict(BIG, Kinds={"New", "Enc", "Dec", "Copy", "Ref", "Rel"})), f_S05, r.pick(120, 1000), 80)
