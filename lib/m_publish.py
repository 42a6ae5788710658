"""Publish.tla <-> every operation whose result leaves the device."""
from mbt import *
from checks import check

class A:
    def __init__(self, rnd, opts):
        self.rnd, self.o = rnd, opts; self.ob, self.pb = [], []; self.n = 0; self.plain = []
    def acc(self, d): return self.o["Acc"][d - 1]
    def setup(self):
        r, c, o = self.rnd, [], self.o; first = {}
        for p in (1, 2): c += ["buf pw%d hex %s" % (p, "".join("%02x" % r.randrange(1, 256) for _ in range(r.choice([8, 12, 31, 32, 64])))), "at_pass pw%d %d" % (p, p)]
        for a in sorted(set(o["Acc"])): c.append("buf id%d rand %d" % (a, r.choice([8, 16, 23, 24, 32, 100, 127])))
        for d, a in enumerate(o["Acc"], 1):
            c += ["buf sy%d rand %d" % (d, r.choice([16, 32, 64])), "di_make dv%d sy%d" % (d, d)]
            if a in first: c += ["cx_rootkeys rk cx%d" % first[a], "cx_gen cx%d rk dv%d id%d" % (d, d, a)]
            else: c.append("cx_new cx%d dv%d id%d" % (d, d, a)); first[a] = d
            c.append("at_ctx cx%d %d %d" % (d, a, d))
            for e in range((d - 1) * o["NP"] + 1, d * o["NP"] + 1): c += ["ek_gen ek%d cx%d %d" % (e, d, r.choice([0, 1, 255, 2**32, 2**64 - 1, r.randrange(2**64)])), "at_eph ek%d %d" % (e, e)]
        return c + ["buf tx rand 64", "buf tg rand 8", "pl_make pl 1 2 3 tg tx"]
    def pub(self, v, f, x, k=None):
        """The slot the publication goes to, and the mirror of what the specification keeps."""
        if v["op"] in self.o["Kept"]: self.pb.append((f, x, k)); return "q%d" % len(self.pb)
        return "qx"
    def new(self, x): self.ob.append(x); return "o%d" % len(self.ob)
    def cmds(self, v):
        r, op, i = self.rnd, v["op"], v.get("i")
        if op == "Take":
            f = v["f"]; x = dict(f=f, d=v["d"], e=v["e"], r=f in ("root", "chain", "node"), n=f in ("nodeid", "chain", "node"))
            return ["pb_take %s %s cx%d %s" % (self.new(x), f, v["d"], "ek%d" % v["e"] if v["e"] else "-")]
        if op == "Copy": return ["pb_copy %s o%d" % (self.new(dict(self.ob[i - 1])), i)]
        if op == "Erase":
            if v["w"] != "eph": self.ob[i - 1]["r" if v["w"] == "root" else "n"] = False
            return ["pb_erase o%d %s" % (i, v["w"])]
        if op == "Rotate": self.ob[i - 1]["e"] = v["e"]; return ["pb_rotate o%d ek%d %d" % (i, v["e"], r.randrange(2))]
        if op == "Publish": return ["pb_pub %s o%d pub" % (self.pub(v, "pub", dict(self.ob[i - 1], r=False, n=False)), i)]
        if op == "PubPri":
            x = self.ob[i - 1]
            return ["pb_pub %s o%d pri" % (self.pub(v, "pri", dict(x)) if x["r"] and x["n"] else "qx", i)]
        if op == "Read": x = dict(self.pb[v["b"] - 1][1]); return ["pb_read %s %s q%d" % (self.new(x), x["f"], v["b"])]
        if op == "Print": return ["pb_print %s o%d o%d" % (self.pub(v, "print", None), i, v["j"])]
        if op == "Sign":
            x = self.ob[i - 1]; can = x["r"] if x["f"] == "root" else x["n"]
            return ["pb_sign %s o%d tx" % (self.pub(v, "sig", None) if can else "qx", i)]
        if op == "Export":
            k, d = v["kind"], v["d"]
            if k in ("ctx", "storage", "recoverykey"): s = self.pub(v, "exp", None, v["p"]); return ["cx_export %s cx%d %s pw%d" % (s, d, k, v["p"]), "at_see " + s]
            if k == "recovery":
                s = self.pub(v, "cip", None, ("rec", d))
                return [["cx_recovery %s cx%d" % (s, d)], ["cx_rootkeys rk cx%d" % d, "cx_recoverykey ck cx%d" % d, "rk_export %s rk ck" % s]][r.randrange(2)] + ["at_see " + s]
            if k in ("local", "remote"): s = self.pub(v, "cip", None, (k, d)); return ["cx_cipher %s cx%d %s tx ser" % (s, d, k), "at_see " + s]
            return ["pb_raw %s cx%d %s" % (self.pub(v, "raw", None), d, k)]
        if op == "Packet":
            s = self.pub(v, "pkt", None, v["d"])
            return ["cx_ver cx%d %d" % (v["d"], r.choice([2, 3, 4]))] + ["pb_nodeof n%d o%d" % (k, j) for k, j in enumerate(v["to"])] + ["pk_encode %s cx%d pl %s" % (s, v["d"], " ".join("n%d" % k for k in range(len(v["to"])))), "at_see " + s]
        if op == "Session": return ["pb_session %s cx%d cx%d %d %d" % (self.pub(v, "tp", None), v["a"], v["b"], v["pin"], r.choice([0, 1, 3, 10]))]
        if op == "Tell": return []
        if op == "Open":
            f, _, k = self.pb[v["b"] - 1]
            return ["pb_open exp q%d pw%d" % (v["b"], k) if f == "exp" else "pb_open pkt q%d cx%d" % (v["b"], k) if f == "pkt" else "pb_open cip q%d %s cx%d" % (v["b"], "rs" if k[0] == "remote" else k[0], k[1])]
        raise CheckError(op)
    def observe(self, v, r): return (dict(r[-1]) if r else {"r": True}), {}

OBJ = "Take Copy Erase Rotate Publish PubPri Read Print Sign"
def C(kinds, **kw):
    d = dict(Acc=[1], NP=1, Forms={"root", "nodeid", "chain", "node", "eph"}, Kept={"Publish", "PubPri"}, MaxObj=2, MaxPub=1, MaxTold=0, Tells=set()); d.update(kw)
    d["Kinds"] = set(kinds.split()); return d
INV, PROPS = ["Quiet", "Bounded", "Lost"], ["Rebuilt", "Shown"]
@check("I03")
def I03(r):
    f = lambda d: True; P = r.pick
    def G(label, c, **kw): r.graph(label, "Publish", A, c, c, f, INV, PROPS, **kw)
    G("identities and chains", C(OBJ, Forms={"root", "nodeid", "chain"}), limit=P(4000, None))
    G("nodes and key pairs", C(OBJ, Forms={"node", "eph"}, NP=2), limit=P(2000, None))
    G("packets", C("Take Erase Read Publish Packet", Forms={"node"}, Acc=[1, 2]), limit=P(600, None))
    G("sessions", C("Session", Acc=[1, 1, 2], MaxPub=1), repeat=P(1, 10))
    G("exports", C("Export Tell Open ctxclear rkclear skclear", Kept={"Export"}, Acc=[1, 1], MaxPub=P(1, 2), MaxTold=1, Tells={"pass", "rec", "ns", "sys"}), limit=P(300, 4000))
    c = C(OBJ + " Export Packet Session Tell Open", Acc=[1, 1, 2], NP=2, Kept={"Publish", "PubPri", "Export", "Packet"}, MaxObj=14, MaxPub=14, MaxTold=3, Tells={"pass", "rec", "ns", "sys"})
    r.sim("random", "Publish", A, c, c, f, P(35, 1500), 45, INV)
