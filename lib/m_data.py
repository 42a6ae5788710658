"""Codec.tla, Buffers.tla, Arrays.tla, Print.tla, Device.tla <-> text encodings, containers, fingerprints, device information."""
import hashlib
from mbt import *
from checks import check
def rb(r, n): return bytes(r.randrange(256) for _ in range(n))

class CodecAdapter:
    def __init__(self, rnd, opts): self.rnd, self.n, self.it = rnd, 0, [bytes(d) for d in opts["Datas"]]; self.base = len(self.it); self.pend = {}
    def setup(self): return ["buf i%d hex %s" % (i + 1, d.hex()) for i, d in enumerate(self.it)] + ["echo 1"]
    # the pool of texts is kept here: encodings come from the library, edits are made on what it returned
    def cmds(self, v):
        op = v["op"]
        if op == "Enc": return ["tc_enc %s %s" % (v["c"], self.ref(v["i"])), "tc_keep %s %s %s" % (self.new(), v["c"], self.ref(v["i"]))]
        if op == "Dec": return ["tc_dec %s %s %s" % (v["c"], self.ref(v["i"]), "exact" if v["c"] == "b32" and self.rnd.random() < .7 else "counted" if v["z"] else "term")]
        if op == "Long": return ["tc_long %s %s %s %d" % (v["c"], self.ref(v["i"]), self.ref(v["j"]), v["n"])]
        s = self.ref(v["i"]); return ["tc_edit %s %s %s %d %d" % (self.new(), s, v["w"], v["p"], v["ch"])]
    def new(self): self.n += 1; return "i%d" % (self.base + self.n)
    def ref(self, i): return "i%d" % i
    def observe(self, v, r): return r[0], {}
def seqs(alphabet, n):
    out = [()]
    for _ in range(n): out += [s + (x,) for s in out if len(s) == len(out[-1]) for x in alphabet]
    return [s for s in dict.fromkeys(out) if s]
def datas(r, rnd, lens): return [tuple(rb(rnd, n)) for n in lens]
FOREIGN = {45, 95, 64, 91, 96, 123, 47, 58, 128, 193, 255, 1, 85, 73, 97}
@check("D03")
def D03(r):
    f = lambda d: True; rnd = random.Random(r.seed)
    c = dict(Datas=seqs((0, 1, 127, 128, 255), 3) + [tuple(x) for x in (b"f", b"fo", b"foo", b"foob", b"fooba", b"foobar")], Chars={0}, Poss={0}, Kinds={"Enc", "Dec"})
    c["MaxI"] = len(c["Datas"]) + 1
    r.graph("every short text", "Codec", CodecAdapter, c, c, f, ("RoundTrip",), repeat=r.pick(1, 3))
    c = dict(Datas=datas(r, rnd, r.pick([5, 9, 10, 33, 64, 100], list(range(1, 80)) + [100, 255, 256, 257, 1000])), Chars={0}, Poss={0}, Kinds={"Enc", "Dec"})
    c["MaxI"] = len(c["Datas"]) + 1
    r.graph("every length", "Codec", CodecAdapter, c, c, f, ("RoundTrip",))
    c = dict(Datas=datas(r, rnd, [15, 15, 1, 2, 3, 4, 5, 7, 14, 16]), Chars={0}, Poss={2, 9, 17, 18, 70, 273, 274, 4369, 4370, 5000} | r.pick(set(), {69906, 69905}), Kinds={"Long"}); c["MaxI"] = len(c["Datas"]) + 1
    r.graph("long texts", "Codec", CodecAdapter, c, c, f, ("RoundTrip",))
    c = dict(Datas=datas(r, rnd, [1, 5]), Chars=set(range(256)), Poss={0, 1, 3, 1000}, MaxI=4, Kinds={"Enc", "Dec", "Edit"})
    if r.quick: c["Chars"] = FOREIGN | {0, 32, 10, 9, 12, 13, 61, 65, 43, 79, 76, 111}
    r.graph("foreign characters", "Codec", CodecAdapter, c, c, f, ("RoundTrip", "Lossless"), limit=r.pick(2500, 60000))
    c = dict(Datas=datas(r, rnd, [1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 40]), Chars=set(range(256)), Poss=set(range(0, 60)), MaxI=40, Kinds={"Enc", "Dec", "Edit"})
    r.sim("random edits", "Codec", CodecAdapter, c, c, f, r.pick(40, 600), 40)

class BufAdapter:
    """1000 and above stand for offsets and lengths that lie outside every buffer of the pool."""
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts; self.map = {}
    def setup(self):
        b = sorted(self.o["Bytes"]); self.map = {0: 0}
        for x in b:
            if x: self.map[x] = self.rnd.choice([y for y in (1, 127, 128, 254, 255, self.rnd.randrange(1, 256)) if y not in self.map.values()])
        self.inv = {v: k for k, v in self.map.items()}
        return []
    def far(self, x, other):
        if x < 1000: return x
        o = other if other < 1000 else 0; k = self.rnd.randrange(0, 4)
        return {1000: (1 << 64) - 1 - k, 1001: ((1 << 64) - o + k) % (1 << 64) if o > k else (1 << 64) - o - k - 1 if o else (1 << 64) - 1, 1002: (1 << 32) + k, 1003: 2147483647 - 16 + k, 1004: 1 << 63, 1005: 2147483647 - 16 - o, 1006: (1 << 31) + k, 1007: (1 << 64) - o if o else 1 << 62}[x]
    def cmds(self, v):
        r, op = self.rnd, v["op"]
        if op == "New": return ["bp_new %s" % (bytes(self.map[x] for x in v["b"]).hex() or "-")] if v["b"] else [r.choice(["bp_null", "bp_zero 0"])]
        if op == "Zero": return [r.choice(["bp_zero %d", "bp_empty %d"]) % (self.far(v["n"], 0) if v["n"] < 1000 else r.choice([2147483647, 2147483647 - 15, 1 << 32, 1 << 40, (1 << 64) - 1]))]
        if op == "Copy": return ["bp_copy %d" % v["i"]]
        if op in ("Section", "Modify"):
            s, l = v["s"], v["l"]; a, b = self.far(s, l), self.far(l, s)
            return ["bp_sec %d %d %d" % (v["i"], a, b)] if op == "Section" else ["bp_mod %d %d %d %d" % (v["i"], v["j"], a, b)]
        if op == "Concat": return ["bp_cat %d %d" % (v["i"], v["j"])]
        if op == "Multi": return ["bp_multi %d %d %d" % (v["i"], v["j"], v["k"])]
        if op == "Equal": return ["bp_eq %d %d %s" % (v["i"], v["j"], v["c"])]
        if op == "Drop": return ["bp_drop %d %d" % (v["i"], v["z"])]
    def observe(self, v, r):
        x = dict(r[-1])
        if isinstance(x["all"], list): x["all"] = [[self.inv.get(y, y + 1000) for y in b] for b in x["all"]]
        return x, {}
FAR = {1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007}
def BC(**kw):
    d = dict(Bytes={0, 1}, Offs={0, 1, 2, 3}, Lens={0, 1, 2, 3}, MaxB=2, MaxLen=3, Cmps={"mem", "vol"}, Kinds={"New", "Zero", "Copy", "Section", "Concat", "Multi", "Modify", "Equal", "Drop"})
    d.update(kw); return d
@check("D05")
def D05(r):
    f = lambda d: True; P, I = ["Frame"], ["Never0"]
    c = BC(Offs={0, 1, 2, 3} | FAR, Lens={0, 1, 2, 3, 4} | FAR, MaxB=1, MaxLen=4, Bytes={0, 1, 2})
    r.graph("one buffer, every range", "Buffers", BufAdapter, c, c, f, I, P, repeat=r.pick(2, 40))
    c = BC(MaxB=2, MaxLen=3)
    r.graph("two buffers", "Buffers", BufAdapter, c, c, f, I, P, limit=r.pick(1500, None))
    if not r.quick:
        c = BC(MaxB=3, MaxLen=3, Offs={0, 1}, Lens={1, 2}, Kinds={"New", "Copy", "Section", "Concat", "Modify", "Drop"})
        r.graph("three buffers", "Buffers", BufAdapter, c, c, f, I, P, limit=30000)
    c = BC(MaxB=6, MaxLen=40, Bytes={0, 1, 2, 3}, Offs=set(range(12)) | FAR, Lens=set(range(12)) | FAR)
    r.sim("random", "Buffers", BufAdapter, c, c, f, r.pick(150, 3000), 50, invs=I)
    # the greatest buffer there may be
    t0 = time.time(); want = {"r": True, "over": False, "cat": False, "multi": False}
    cases = [(s, l, 0 < l <= s) for s in (0, 1, 8, 16) for l in (0, 1, 8, 16) if l <= 16]
    for (s, l, ok) in cases if not r.quick else [(8, 8, True), (8, 9, False), (1, 1, True), (0, 1, False)]:
        res, crash = run_sut(["bp_huge %d %d 0" % (s, l)], 120)
        w = dict(want, mod=ok, sec=ok)
        if crash or any(res[0][k] != x for k, x in w.items()): r.rep.violation("greatest buffer: %d before its end, length %d: expected %s, observed %s %s" % (s, l, w, res, crash), {"commands": ["bp_huge %d %d 0" % (s, l)]})
    r.lap("greatest buffer", t0)

class ArrAdapter:
    BIG = [1 << 28, (1 << 29) - 1, 1 << 29, (1 << 29) + 2, 1 << 31, (1 << 32) - 1]
    def __init__(self, rnd, opts): self.rnd = rnd
    def setup(self): return []
    def k(self, k): return k if k < 1000 else self.rnd.choice([1 << 29, (1 << 29) + 1, (1 << 32) - 1, 1 << 31, 1 << 30])
    def cmds(self, v):
        op = v["op"]
        if op == "Item": return ["ar_item %d" % v["x"]]
        if op == "New": self.own = getattr(self, "own", []) + ([v["own"]] if v["n"] < 1000 else []); return ["ar_new %d" % (v["n"] if v["n"] < 1000 else self.rnd.choice(self.BIG))]
        if op == "Set": return ["ar_set %d %d %d %d %d" % (v["i"], self.k(v["k"]), v["x"], not v["take"], v["f"])]
        if op == "Fetch": return ["ar_get %d %d %d %d" % (v["i"], self.k(v["k"]), v["copy"], v["f"])]
        if op == "Copy":
            if not v["f"]: self.own = self.own + [v["deep"]]
            return ["ar_copy %d %d %d" % (v["i"], v["deep"], v["f"])]
        if op == "Free": return ["ar_free %d %d" % (v["i"], self.own[v["i"] - 1])]
        if op == "Release": return ["ar_release %d" % v["x"]]
        if op == "Big": return ["ar_big %d %d" % (v["n"], v["k"])]
        if op == "Change": return ["ar_change %d %d" % (v["x"], v["y"])]
    def observe(self, v, r): return r[-1], {}
def AC(**kw):
    d = dict(Bigs={0}, Sizes={0, 2, 1000}, Idx={0, 1, 2, 1000}, MaxA=1, MaxT=3, MaxV=1, Kinds={"Item", "New", "Set", "Fetch", "Copy", "Free", "Release", "Change"})
    d.update(kw); return d
@check("D04")
def D04(r):
    f = lambda d: True; I, P = ["OneOwner"], ["Once"]
    c = AC()
    r.graph("one array", "Arrays", ArrAdapter, c, c, f, I, P, repeat=r.pick(1, 5), limit=r.pick(4000, None))
    c = AC(MaxA=2, Sizes={2}, Idx={0, 1, 2}, MaxT=r.pick(3, 4), Kinds={"Item", "New", "Set", "Copy", "Free", "Release"})
    r.graph("array and its copy", "Arrays", ArrAdapter, c, c, f, I, P, limit=r.pick(3000, 60000))
    c = AC(Bigs={2, 255, 256, 257, 300, 65535, 65536, 65537, 70000} | r.pick(set(), {200000, 1 << 20}), Kinds={"Big"})
    r.graph("great arrays", "Arrays", ArrAdapter, c, c, f, I, P)
    c = AC(MaxA=8, Sizes={0, 1, 2, 3, 5, 1000}, Idx=set(range(6)) | {1000}, MaxT=40, MaxV=3)
    r.sim("random", "Arrays", ArrAdapter, c, c, f, r.pick(60, 2000), 60, invs=I)

C32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
def b32(d):
    n = int.from_bytes(d, "big") << 3; return "".join(C32[(n >> (5 * i)) & 31] for i in range(102, -1, -1)) if len(d) == 64 else ""
class PrintAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts
    def setup(self):
        r, c, o = self.rnd, [], self.o
        for k in sorted(o["Ks"]): c += ["ec_rand k%s_pri" % k, "ec_form k%s_pub k%s_pri pub" % (k, k)]
        a = rb(r, r.choice([1, 20, 32, 200])); ids = sorted(o["Ids"])
        for n, i in enumerate(ids): c.append("buf id_%s hex %s" % (i, [a, a + b"\0", a[:-1] + bytes([a[-1] ^ 128]), b"\0" + a, a + a][n].hex()))
        p = rb(r, 64); q = bytearray(p); q[63] ^= 128; s = bytearray(p); k = r.randrange(1, 63); s[k] ^= 0x80; w = bytearray(p); w[0] ^= 0x80
        for n, x in enumerate(sorted(o["Raws"])): c.append("buf w_%s hex %s" % (x, (rb(r, r.choice([32, 63, 65])) if x in o["Odd"] else bytes([p, bytes(q), bytes(s), bytes(w)][n])).hex()))
        return c
    def fp(self, i): return "f%d" % i if i else "-"
    def cmds(self, v):
        r, op = self.rnd, v["op"]
        if op == "Gen": return ["fp_gen T k%s_%s id_%s %d" % (v["k"], v["f"], v["id"], v["ty"]), "push T f"]
        if op == "Raw": return ["fp_raw T w_%s" % v["x"], "push T f"]
        if op == "Two": return ["fp_pair T %s %s %d" % (self.fp(v["i"]), self.fp(v["j"]), v["ty"]), "push T f"]
        if op == "Copy": return ["fp_copy T f%d" % v["i"]]
        if op == "Show": return ["fp_show %s %s %s" % (self.fp(v["i"]), v["how"], v["len"])]
    def observe(self, v, r):
        x = dict(r[0])
        if v["op"] == "Show" and x["r"]: d = bytes.fromhex(x["hex"]); t = b32(d) if v["how"] == "b32" else d.hex(); x["right"] = x["text"] == (t if v["len"] == "long" else t[:len(t) // 2])
        return x, {k: x[k] for k in ("f",) if k in x}
def PC(**kw):
    d = dict(Ks={"1", "2"}, Forms={"pri", "pub"}, Ids={"a", "b"}, Raws=set(), Odd=set(), MaxF=2, Kinds={"Gen", "Raw", "Two", "Copy", "Show"})
    d.update(kw); return d
@check("D02")
def D02(r):
    f = lambda d: True; P = ["Symmetric"]
    c = PC(MaxF=1, Ks={"1", "2", "3"}, Ids={"a", "b", "c", "d", "e"})
    r.graph("one fingerprint", "Print", PrintAdapter, c, c, f, (), P, repeat=r.pick(8, 60))
    c = PC(MaxF=3, Forms={"pub"}, Raws={"p", "q"}, Ids={"a"})
    r.graph("pairs", "Print", PrintAdapter, c, c, f, (), P, limit=r.pick(1200, None), repeat=r.pick(1, 3))
    c = PC(MaxF=3, Ks=set(), Forms=set(), Ids=set(), Raws={"p", "q", "s", "w", "z"}, Odd={"z"})
    r.graph("order of bytes", "Print", PrintAdapter, c, c, f, (), P, repeat=r.pick(3, 30), limit=r.pick(1200, None))
    c = PC(MaxF=20, Ks={"1", "2", "3", "4"}, Ids={"a", "b", "c", "d", "e"}, Raws={"p", "q", "s", "w", "z"}, Odd={"z"})
    r.sim("random", "Print", PrintAdapter, c, c, f, r.pick(60, 1000), 40)

class DevAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts
    def setup(self):
        r, c, o = self.rnd, [], self.o
        n = r.choice([65536, 70000]) if r.random() < .1 else r.choice([16, 32, 64, 100, 128, 255, 256, 1000])
        for i, d in enumerate(sorted(o["Devs"])):
            c.append("buf d_%s rand %d" % (d, n) if i == 0 else "mutate d_%s d_%s %s" % (d, d0, ["pad %d" % (1 if r.random() < .5 else r.choice([256, 65536])), "flip -1 1", "flip %d 64" % (n // 2)][i - 1]))
            if i == 0: d0 = d
        s = rb(r, r.choice([16, 64, 64]))
        for n, x in enumerate(sorted(o["Salts"])): c.append("buf s_%s hex %s" % (x, [s, s[:-1] + bytes([s[-1] ^ 1]), bytes([s[0] ^ 128]) + s[1:]][n].hex()))
        return c
    def cmds(self, v):
        op = v["op"]
        if op == "New": return ["di_make T d_%s" % v["d"], "push T v"]
        if op == "Derive": return ["di_make T d_%s s_%s" % (v["d"], v["s"]), "push T v"]
        if op == "Again": return ["di_salt z v%d" % v["i"], "di_make T d_%s z" % v["d"], "push T v"]
        if op == "Copy": return ["di_copy T v%d" % v["i"]]
        if op == "None": return ["di_make T -" + (" s_%s" % sorted(self.o["Salts"])[0] if v["w"] == "dev" else "")]
    def observe(self, v, r):
        x = dict(r[1] if v["op"] == "Again" else r[0])
        if "leak" in x: x["hides"] = not x["leak"]; x["size"] = 32 if x["len"] == 32032 else x["len"]
        elif x["r"]: x["hides"], x["size"] = True, 32
        return x, {k: x[k] for k in ("msg", "srv", "sys", "salt") if k in x}
@check("D08")
def D08(r):
    f = lambda d: True
    K = {"New", "Derive", "Again", "Copy", "None"}
    c = dict(Devs={"a", "b", "c"}, Salts={"s", "t", "u"}, MaxD=2, Kinds=K)
    r.graph("two derivations", "Device", DevAdapter, c, c, f, (), ["Stable"], repeat=r.pick(6, 60))
    c = dict(Devs={"a", "b", "c", "d"}, Salts={"s", "t", "u"}, MaxD=20, Kinds=K)
    r.sim("random", "Device", DevAdapter, c, c, f, r.pick(100, 2000), 30)
