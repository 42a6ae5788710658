"""File.tla <-> the file encryption of the engine, in a scratch directory with failing input and output."""
from mbt import *
from checks import check
def rb(r, n): return r.randbytes(n)
HDR = {"GCM": 29, "CTR": 17}
FL = {"rd0", "rdmid", "rdend", "wr0", "wrmid", "wrend", "once0", "once", "onceend", "close", "rename"}
class FileAdapter:
    SIZES = [1, 15, 16, 17, 255, 1000, 4095, 4096, 4097, 4113, 8191, 8192, 8193, 12288, 65536, 100001]
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts; self.rn = {w: (rnd.randrange(1 << 30), 1 << rnd.randrange(8)) for w in sorted(WAYS)}
    def setup(self):
        r, o, c = self.rnd, self.o, []
        for k in sorted(o["Keys"]):
            c += ["buf kd rand 32"] + ["ck_make k_%s_%s %s kd" % (k, t, t) for t in ("GCM", "CTR")]
        c += ["buf kd rand %d" % r.choice([1, 16, 31, 33, 64]), "ck_make k_short_GCM GCM kd", "ck_make k_short_CTR CTR kd"]
        ss = r.sample(self.SIZES[1 if o["Ways"] and "Change" in o["Kinds"] or not o["Kinds"] else 0:], len(o["Plains"]))
        if o.get("Big"): ss[0] = r.choice([1 << 20, (1 << 20) + 1, 3000000])
        for p, s in zip(sorted(o["Plains"]), ss):
            if p: c += ["buf p_%d hex %s" % (p, rb(r, s).hex())] if s <= 100001 else ["buf p_%d rand %d" % (p, s)]
        return c
    def key(self, v, c): return {"good": "k_%s_%s" % (v["key"], c), "none": "-", "short": "k_short_" + c}[v.get("q", "good")]
    def ls(self): return "f_ls " + " ".join(sorted(self.o["Paths"]))
    def cmds(self, v): return self.one(v) + [self.ls()]
    def one(self, v):
        r, op = self.rnd, v["op"]
        f = v.get("f", "none")
        if op == "Write": return ["f_write %s %s" % (v["p"], "p_%d" % v["x"] if v["x"] else "-")]
        if op == "MkDir": return ["f_mkdir %s" % v["p"]]
        if op == "Remove": return ["f_rm %s" % v["p"]]
        if op == "Change": return ["f_read T %s" % v["p"], "fmut T T %s %d %d" % ((v["w"],) + self.rn[v["w"]]), "f_write %s T" % v["p"]]
        if op == "Enc": return ["f_op enc %s %s %s 1 %s" % (self.key(v, v["c"]), v["s"], v["d"], f)]
        if op == "Dec": return ["f_op dec %s %s %s %d %s" % (self.key(v, v["c"]), v["s"], v["d"], v["only"], f)]
        if op == "MemEnc": return ["f_op menc %s %s %s 1 none" % (self.key(v, v["c"]), v["s"], v["d"])]
        if op == "MemDec": return ["f_op mdec %s %s %s %d none" % (self.key(v, v["c"]), v["s"], v["d"], v["only"])]
        if op == "NoPath": return ["f_op %s k_%s_GCM %s %s 1 none" % (v["w"], v["key"], v["s"], v["d"])]
        if op == "TempSource": return ["f_write a.temp p_%d" % self.o["tp"], "f_crash enc k_%s_%s a.temp a 0 2000" % (v["key"], v["c"]), "f_rm a.temp"]
        if op == "Crash": return ["f_crash %s %s %s %s 0 %d" % (v["op2"], self.key(v, v["c"]), v["s"], v["d"], v["at"])]
    def observe(self, v, res):
        x, l = dict(res[1] if v["op"] == "TempSource" else res[-2]), res[-1]
        x.setdefault("r", True); x.update(extra=l["extra"], kept=l["kept"])
        d = l["files"]; x["dirs"] = {p: d[p] == l["dir"] for p in d}
        return x, d
WAYS = {"mode", "badmode", "iv", "tag", "zerotag", "ct", "ext", "cutlast", "cutall", "cuthdr", "empty"}
def FC(**kw):
    d = dict(Paths={"a", "b"}, Plains={0, 1}, Keys={"k1", "k2"}, Ciphers={"GCM", "CTR"}, Ways=WAYS, Faults={"none"}, Points={500}, Depth=1, MaxE=1, Kinds={"Write", "Enc", "Dec"})
    d.update(kw); return d
@check("K04")
def K04(r):
    f = lambda d: True; P = ["Frame", "Authentic", "Failing"]
    PT = set(range(0, 1001, 50))
    # every change of one encrypted file
    c = FC(Kinds={"Write", "Enc", "Dec", "Change", "MemDec", "MemEnc"}, Plains={0, 1, 2})
    r.graph("changed files", "File", FileAdapter, c, c, f, (), P, maxlen=20, limit=r.pick(800, None), repeat=r.pick(1, 4))
    # every failure of the file system and every point of a crash
    c = FC(Paths=r.pick({"a", "b"}, {"a", "b", "c"}), Keys={"k1"}, Faults=FL | {"none"}, Points=PT, Kinds={"Write", "Enc", "Dec", "Crash", "Remove"}, Plains={0, 1})
    r.graph("failures", "File", FileAdapter, c, c, f, (), P, maxlen=20, limit=r.pick(600, None), repeat=r.pick(1, 6))
    # missing files and keys, directories
    c = FC(Paths={"a", "b", "c"}, Keys={"k1"}, Ciphers={"GCM"}, Kinds={"Write", "Enc", "Dec", "MkDir", "Remove", "NoPath"}, Plains={1})
    r.graph("missing things", "File", FileAdapter, c, c, f, (), P, maxlen=30, limit=r.pick(800, None))
    c = FC(Paths={"a", "b"}, Keys={"k1"}, Kinds={"Write", "TempSource", "Remove"}, Plains={1})
    r.graph("source named like the temporary file", "File", FileAdapter, c, dict(c, tp=1), f, (), P, maxlen=30, repeat=r.pick(4, 20))
    # encryptions of encryptions, many files
    c = FC(Paths={"a", "b", "c", "d"}, Plains={0, 1, 2, 3, 4}, Keys={"k1", "k2", "k3"}, Faults=FL | {"none"}, Points=PT, Depth=3, MaxE=40, Kinds={})
    r.sim("random", "File", FileAdapter, c, c, f, r.pick(60, 1500), 30)
    c = FC(Paths={"a", "b", "c"}, Plains={0, 1, 2}, Keys={"k1", "k2"}, Faults=FL | {"none"}, Points=PT, Depth=2, MaxE=20)
    r.sim("large files", "File", FileAdapter, c, dict(c, Big=True), f, r.pick(8, 200), 15)
