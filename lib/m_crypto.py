"""Cipher.tla, Kdf.tla, Ecdh.tla <-> the cipher, derivation and agreement operations of the engine."""
import ctypes, hashlib, hmac
from mbt import *
from checks import check
def rb(r, n): return bytes(r.randrange(256) for _ in range(n))

class CipherAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o, self.ivs = rnd, opts, {}; self.ks = set(); self.parts = []
    def setup(self):
        r, c, o = self.rnd, [], self.o
        for d in sorted(o["Data"]):
            c.append("buf kd_%s rand 32" % d)
            for t in sorted(o["Ciphers"]): c.append("ck_make k_%s_%s %s kd_%s" % (d, t, t, d))
        for t in sorted(o["Texts"]): c.append("buf t_%s hex %s" % (t, rb(r, r.choice([1, 2, 3]) if t in o["Short"] else r.choice([15, 16, 17, 31, 32, 33, 100, 1000, 4095, 65536, 70000])).hex()))
        # additional data that differ only by what is beyond the first n bytes, or in one of them
        n = r.choice([65535, 65536, 70000]) if r.random() < .1 else r.choice([1, 12, 16, 64, 255, 256, 500])
        for i, x in enumerate(sorted(o["Aads"] - {"-", "huge"})):
            c.append("buf a_%s rand %d" % (x, n) if i == 0 else "mutate a_%s a_%s " % (x, x0) + ("pad %d" % (1 if r.random() < .5 else r.choice([256, 65536])) if i == 1 else "flip %d 1" % r.choice([n - 1, n // 2])))
            if i == 0: x0 = x
        for x in sorted(o["Nonces"] - {"-"}):
            for t in sorted(o["Ciphers"]):
                n = 12 if t == "GCM" else 16
                c.append("buf n_%s_%s rand %d" % (x, t, n if x != "bad" else r.choice([1, n - 1, n + 1, 8, 32])))
        return c
    def aad(self, x): return "-" if x == "-" else "huge:%d" % self.rnd.choice([2**31, 2**31 + 16, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 16, 2**32 + 1000]) if x == "huge" else "a_" + x
    def cmds(self, v):
        r, op = self.rnd, v["op"]
        if op == "Enc": return ["cr_enc T t_%s %s k_%s_%s%s" % (v["t"], self.aad(v["a"]), v["d"], v["c"], "" if v["iv"] == "-" else " n_%s_%s" % (v["iv"], v["c"])), "push T c"]
        if op == "Dec": return ["cr_dec c%d %s k_%s_%s %d" % (v["i"], self.aad(v["a"]), v["d"], v["c"], v["only"])]
        if op == "Mix": return ["cr_mix T %s c%d c%d %s" % (v["c"], v["i"], v["j"], "c%d" % v["k"] if v["k"] else "-"), "push T c"]
        if op == "Same": return ["cr_ser b c%d" % v["i"], "cr_from T b"] if v["w"] == "ser" else ["cr_copy T c%d" % v["i"]]
        if op == "KeySame": k = "k_%s_%s" % (v["d"], v["c"]); return ["ck_ser b " + k, "ck_from %s b" % k] if v["w"] == "ser" else ["ck_copy q " + k, "ck_copy %s q" % k]
        if op == "KeyRand": return ["ck_make q " + v["c"]]
        if op == "KeyBad":
            k = "k_%s_%s" % (v["d"], v["c"]); w = v["w"]
            if w in ("long", "less"): return ["buf b rand %d" % (r.choice([33, 64]) if w == "long" else r.choice([1, 16, 31])), "ck_make q %s b" % v["c"]]
            return ["ck_ser b " + k, "mutate b b " + {"badid": "set 0 %02x" % r.choice([2, 3, 16, 255]), "short": "trunc -%d" % r.choice([1, 2, 16, 31]), "empty": "trunc 1", "cut": "trunc %d" % r.choice([2, 16, 32])}[w], "ck_from q b"]
        if op == "Change": return self.change(v)
    def change(self, v):
        r, w, i = self.rnd, v["w"], v["i"]
        return ["cr_ser b c%d" % i, "crmut b b %s %d %d" % (w, r.randrange(1 << 30), 1 << r.randrange(8)), "cr_from T b", "push T c"]
    C = {0: "GCM", 1: "CTR"}
    def observe(self, v, r):
        op = v["op"]; x = dict(r[-1] if op in ("Dec", "Same", "KeySame", "KeyBad", "KeyRand") else r[-2])
        if "c" in x: x["c"] = self.C.get(x["c"], "?")
        ps = tuple(x.get(k) for k in ("c", "iv", "ct", "tag"))
        if op in ("Enc", "Mix", "Change") and x["r"]: self.parts.append(ps)
        if op == "Same": x["same"] = ps == self.parts[v["i"] - 1]
        if op == "KeyRand": x["fresh"] = x["k"] not in self.ks; self.ks.add(x["k"])
        return x, {k: x[k] for k in ("iv", "ct", "tag", "t", "k") if k in x}
CW = {"iv", "ct", "tag", "ext", "trunc", "noct", "other", "badid", "short"}
def CC(**kw):
    d = dict(Data={"k1", "k2"}, Ciphers={"GCM", "CTR"}, Texts={"t1", "t2"}, Short=set(), Aads={"-", "a1", "a2"}, Nonces={"-", "n1", "bad"}, Ways=CW, MaxCr=2, Kinds={"Enc", "Dec", "Mix", "Change", "Same", "KeySame", "KeyBad", "KeyRand"})
    d.update(kw); return d
P1 = ["Exact", "OnlyAuth", "NoAad"]
@check("K01")
def K01(r):
    f = lambda d: True
    c = CC(MaxCr=1, Texts={"t1", "s1"}, Short={"s1"}, Aads={"-", "a1", "a2", "a3", "huge"})
    r.graph("one result", "Cipher", CipherAdapter, c, c, f, (), P1, repeat=r.pick(6, 60))
    c = CC(Data={"k1"}, Texts={"t1", "t2"}, Aads={"-", "a1"}, Nonces={"-", "n1"}, MaxCr=r.pick(2, 3), Kinds={"Enc", "Dec", "Change", "Mix"}, Ciphers=r.pick({"GCM", "CTR"}, {"GCM"}), Ways=r.pick(CW, {"iv", "ct", "tag", "trunc"}))
    r.graph("assembled from parts", "Cipher", CipherAdapter, c, c, f, (), P1, limit=r.pick(1500, 20000))
    c = CC(Data={"k1", "k2", "k3"}, Texts={"t1", "t2", "t3", "s1"}, Short={"s1"}, Aads={"-", "a1", "a2", "a3", "huge"}, Nonces={"-", "n1", "n2", "bad"}, MaxCr=16)
    r.sim("random", "Cipher", CipherAdapter, c, c, f, r.pick(60, 2000), 40)

CRYPT = ctypes.CDLL("libcrypt.so.1"); CRYPT.crypt_r.restype = ctypes.c_char_p
def bcrypt(secret, setting): return CRYPT.crypt_r(secret, setting, ctypes.create_string_buffer(65536))
class KdfAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o, self.sec, self.inf = rnd, opts, {}, {}; self.objs = []
    def setup(self):
        r, c, o = self.rnd, [], self.o
        nz = lambda n: bytes(r.randrange(1, 256) for _ in range(n))
        p72 = nz(72); stem = rb(r, r.choice([1, 7, 40]))
        s0 = nz(r.choice([2, 8, 16, 32, 55, 56, 63, 64, 65, 71, 72]) if "b15" in o["Algos"] else r.choice([2, 32, 63, 64, 65, 66, 128, 129, 200, 255, 256, 5000, 66000]))
        near = [s0, s0[:-1] + bytes([s0[-1] ^ 1 or 2]), bytes([s0[0] ^ 128 or 1]) + s0[1:]] if r.random() < .6 and o["Secrets"] - {"x1", "x2", "x3"} <= {"L1", "L2"} else []
        for x in sorted(o["Secrets"]):
            self.sec[x] = near[int(x[1]) - 1] if near and x[0] == "x" else stem + b"\0" + rb(r, r.choice([2, 30, 60])) if x[0] == "z" else p72 + nz(r.choice([1, 5, 100])) if x[0] == "L" else nz(r.choice([2, 8, 16, 32, 63, 64, 65, 72]) if "b15" in o["Algos"] else r.choice([2, 32, 66, 200, 255, 256, 5000, 66000]))
            c.append("buf x_%s hex %s" % (x, self.sec[x].hex()))
        alpha = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
        for s in sorted(o["Salts"] - {"-"}):
            c.append("buf s_%s_s rand %d" % (s, 16 if s != "bad" else r.choice([1, 15, 17, 64])))
            b = "".join(r.choice(alpha) for _ in range(self.bl() - 1)) + r.choice(".Oeu")
            c.append("buf s_%s_b hex %s" % (s, (b if s != "bad" else b[:-1]).encode().hex()))
        i0 = rb(r, r.choice([1, 32, 100, 1000]))
        for n, i in enumerate(sorted(o["Infos"] - {"-"})):
            self.inf[i] = rb(r, r.choice([1025, 2000])) if i == "big" else i0 if n == 0 else i0 + b"\0" if n == 1 else i0[:-1] + bytes([i0[-1] ^ 1]) if n == 2 else rb(r, 1024)
            c.append("buf i_%s hex %s" % (i, self.inf[i].hex()))
        for t in sorted(o["Texts"]): c.append("buf t_%s rand %d" % (t, r.choice([8, 33, 1000])))
        return c
    def bl(self): return 22
    def opt(self, p, x): return "-" if x == "-" else p + x
    def cmds(self, v):
        r, op = self.rnd, v["op"]
        if op == "Gen": return ["kd_gen g %s x_%s" % (v["algo"], v["x"]), "kd_of T g", "push T m"]
        if op == "Make": return ["kd_meta T %s %s %s" % (v["algo"], "-" if v["salt"] == "-" else "s_%s_%s" % (v["salt"], "b" if v["algo"] == "b15" else "s"), self.opt("i_", v["info"])), "push T m"]
        if op == "Expand": return ["kd_expand T %s %s %d" % (v["g"], self.opt("i_", v["info"]), v["n"]), "push T m"]
        if op == "Derive": return ["kd_do g m%d x_%s" % (v["i"], v["x"])]
        if op == "Copy": return ["kd_copy T m%d" % v["i"], "push T m"]
        if op == "Ser": return ["kd_ser T m%d" % v["i"], "push T m"]
        if op == "Read":
            w = v["w"]; n = r.randrange(1, 17)
            m = {"-": ["bufcopy b m%d"], "ext": [], "badid": ["mutate b m%%d set 0 %02x" % r.choice([0, 6, 7, 8, 9, 10, 200])], "empty": ["mutate b m%d trunc 1"], "cut": ["mutate b m%%d trunc -%d" % r.choice([1, 2, 8, 15])], "salt": ["kdmut b m%d salt"], "cost": ["kdmut b m%d cost"]}[w]
            return [x % v["i"] for x in m] + (["mutate b b ext %s" % rb(r, 3).hex()] if w == "-" and r.random() < .4 else []) + ["kd_from T b", "push T m"]
        if op in ("Seal", "Craft"): return ["kd_%s T %s %s t_%s x_%s" % (op.lower(), v["algo"], v["c"], v["t"], v["x"]), "push T e"]
        if op == "Spoil":
            fl = lambda p, q: "flip %d %d" % (r.randrange(p, q), 1 << r.randrange(8))
            m = {"kdf": "set 0 %02x" % r.choice([5, 6, 0]), "salt": fl(1, 17), "cipher": "set 17 01", "iv": fl(18, 30), "tag": fl(30, 46), "ct": "flip -%d 1" % r.randrange(1, 9), "trunc": "trunc -%d" % r.choice([1, 8]), "short": "trunc %d" % r.choice([1, 16, 17, 18, 30, 45, 46]), "ext": "ext 00"}
            return ["mutate T e%d %s" % (v["i"], m[v["w"]]), "push T e"]
        if op == "Unseal": return ["kd_open e%d x_%s" % (v["i"], v["x"])]
    def std(self, x, secret):
        """Independent values: RFC 5869 for HKDF; the scrypt stand-in runs with its cost divided by 4096."""
        a, out = x["algo"], x["len"]; salt = bytes.fromhex(x["salthex"])
        if a[0] == "s": return hashlib.scrypt(secret, salt=salt, n=int(x["cost"].split(":")[1]) >> 12, r=8, p=1, dklen=32).hex() == x["hex"]
        if a == "b15": return bytes.fromhex(x["hex"])[:4] + b"04" + bytes.fromhex(x["hex"])[6:] == bcrypt(secret, b"$2y$04$" + salt)
        info = next((self.inf[i] for i, t in self.it.items() if t == x["info"]), b"") if x["info"] else b""
        h = {"h256": "sha256", "h384": "sha384", "h512": "sha512", "hx": "sha512"}[a]
        prk = secret if a == "hx" else hmac.new(salt or bytes(hashlib.new(h).digest_size), secret, h).digest()
        t, o, i = b"", b"", 1
        while len(o) < out: t = hmac.new(prk, t + info + bytes([i]), h).digest(); o += t; i += 1
        return o[:out].hex() == x["hex"]
    def observe(self, v, r):
        op = v["op"]; x = dict(r[-1] if op in ("Derive", "Unseal") else r[0] if op in ("Gen",) else r[-2])
        if op == "Gen" and x["r"]: x["out"] = x["len"]
        if op in ("Gen", "Derive") and x["r"]: x["std"] = self.std(x, self.sec[v["x"]])
        x.pop("hex", 0)
        if op in ("Make", "Expand") and x["r"] and x["info"]: self.it = dict(getattr(self, "it", {})); self.it[v["info"]] = x["info"]
        return x, {k: x[k] for k in ("salt", "info", "key", "iv", "t") if k in x}
    it = {}
SP = {"kdf", "salt", "cipher", "iv", "tag", "ct", "trunc", "short", "ext"}
def KC(**kw):
    d = dict(Algos={"s17", "b15", "h256"}, Secrets={"x1", "x2"}, Salts={"-", "s1", "s2", "bad"}, Infos={"-", "i1"}, Sizes={32}, BClass={"x1": "x1", "x2": "x2", "L1": "L", "L2": "L"}, Texts={"t1"}, SWays=SP, MaxM=2, Kinds={"Gen", "Make", "Expand", "Derive", "Ser", "Read", "Copy"})
    d.update(kw); return d
ALG = {"s17", "s18", "s19", "s20", "b15", "h256", "h384", "h512", "hx"}
def seal(r, f, rep):
    c = KC(Algos={"s17", "s18", "b15", "h256"}, Kinds={"Seal", "Craft", "Spoil", "Unseal"})
    r.graph("sealed under a password", "Kdf", KdfAdapter, c, c, f, (), ["OnlySame", "OnlyStrong"], repeat=rep)
@check("K02")
def K02(r):
    f = lambda d: True
    c = KC(Algos=ALG, Infos={"-", "i1", "i2", "big"}, Sizes={0, 1, 32, 64, 100, 255, 256, 288, 16320, 65568}, MaxM=1, Secrets={"x1", "x2", "L1", "L2"})
    r.graph("one parameter set", "Kdf", KdfAdapter, c, c, f, repeat=r.pick(2, 40))
    c = KC(Algos={"h256", "h384", "h512", "hx"}, Salts={"-", "s1", "bad"}, Infos={"-", "i1"}, MaxM=2)
    r.graph("HKDF sets", "Kdf", KdfAdapter, c, c, f, repeat=r.pick(1, 10), limit=r.pick(1500, None))
    c = KC(Algos=ALG - {"b15"}, Infos={"-", "i1"}, MaxM=1, Secrets={"z1", "z2", "x1"}, BClass={x: x for x in ("z1", "z2", "x1")}, Kinds={"Gen", "Make", "Derive"})
    r.graph("secrets with zero bytes", "Kdf", KdfAdapter, c, c, f, repeat=r.pick(3, 40))
    c = KC(Algos={"s17", "s19", "b15"}, Infos={"-"}, MaxM=3, Kinds={"Gen", "Make", "Derive", "Ser", "Read"})
    r.graph("password functions, stored", "Kdf", KdfAdapter, c, c, f, repeat=r.pick(1, 10), limit=r.pick(1000, 20000))
    seal(r, f, r.pick(1, 20))
    c = KC(Algos=ALG, Infos={"-", "i1", "i2", "i3", "i4", "big"}, Sizes={32, 33, 200}, MaxM=12, Secrets={"x1", "x2", "x3", "L1", "L2"}, BClass={"x1": "x1", "x2": "x2", "x3": "x3", "L1": "L", "L2": "L"}, Texts={"t1", "t2"}, Kinds={"Gen", "Make", "Expand", "Derive", "Ser", "Read", "Copy", "Seal", "Craft", "Spoil", "Unseal"})
    r.sim("random", "Kdf", KdfAdapter, c, c, f, r.pick(60, 1500), 40)

class EcdhAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o, self.m = rnd, opts, {}
    def setup(self):
        r, c = self.rnd, []
        for k in sorted(self.o["Ks"]): c += ["ec_rand k%d_pri" % k, "ec_form k%d_pub k%d_pri pub" % (k, k)]
        for s in ("s1", "s2"): c.append("buf %s rand 16" % s)
        i0 = rb(r, r.choice([1, 20, 500]))
        c += ["buf i1 hex " + i0.hex(), "buf i2 hex " + (i0 + b"\1").hex()]
        for t in sorted(self.o["Texts"]): c.append("buf t_%s rand %d" % (t, r.choice([8, 33, 1000, 40000])))
        for i, p in enumerate(self.o["ParList"]): self.m[json.dumps(p, sort_keys=True)] = "p%d" % i; c.append("kd_meta p%d %s %s %s" % (i, p["algo"], p["salt"], p["info"]))
        return c
    def par(self, p): return self.m[json.dumps(p, sort_keys=True)]
    def cmds(self, v):
        r, op = self.rnd, v["op"]
        if op in ("Enc", "Dec"):
            c = ["eh_make e k%d_%s %s" % (v["a"], v["f"], v["c"])] + (["eh_copy e2 e", "eh_copy e e2"] if r.random() < .2 else [])
            if op == "Enc": return c + ["eh_enc T e t_%s k%d_%s %s" % (v["t"], v["b"], v["g"], self.par(v["p"])), "push T c"]
            return c + ["eh_dec e c%d k%d_%s %s" % (v["i"], v["b"], v["g"], self.par(v["p"]))]
        if op == "Change": return ["cr_ser b c%d" % v["i"], "crmut b b %s %d %d" % (v["w"], r.randrange(1 << 30), 1 << r.randrange(8)), "cr_from T b", "push T c"]
        if op == "Secret": return ["ss k%d_%s k%d_%s" % (v["a"], v["f"], v["b"], v["g"])]
    def observe(self, v, r):
        x = dict(r[-2] if v["op"] in ("Enc", "Change") else r[-1])
        if "c" in x: x["c"] = CipherAdapter.C.get(x["c"], "?")
        return x, {k: x[k] for k in ("iv", "ct", "t", "ss") if k in x}
def P(a, s="s1", i="i1"): return {"algo": a, "salt": s, "info": i}
def EC(pars, **kw):
    d = dict(Ks={1, 2, 3}, Forms={"pri", "pub"}, Ciphers={"GCM"}, Texts={"t1"}, Ways={"iv", "ct", "tag"}, MaxCr=1, Kinds={"Enc", "Dec", "Change", "Secret"})
    d.update(kw); c = dict(d, Pars=Raw("{" + ", ".join(tla(p) for p in pars) + "}")); return c, dict(d, ParList=pars)
PS = [P("h256"), P("h512"), P("h384"), P("h256", "s2"), P("h256", "s1", "i2"), P("h256", "-"), P("h256", "s1", "-"), P("hx"), P("hx", "s2"), P("s17", "s1", "-")]
@check("K03")
def K03(r):
    f = lambda d: True
    c, o = EC(PS, Ks={1, 2})
    r.graph("parameters", "Ecdh", EcdhAdapter, c, o, f, (), ["OnlyPeer"], limit=r.pick(700, None))
    c, o = EC(PS[:2], MaxCr=2)
    r.graph("three pairs", "Ecdh", EcdhAdapter, c, o, f, (), ["OnlyPeer"], limit=r.pick(500, None))
    c, o = EC(PS[:1] + PS[4:5], Ciphers={"GCM", "CTR"}, Ks={1, 2})
    r.graph("ciphers", "Ecdh", EcdhAdapter, c, o, f, (), ["OnlyPeer"], limit=r.pick(500, None))
    c, o = EC(PS, Ks={1, 2, 3, 4}, Ciphers={"GCM", "CTR"}, Texts={"t1", "t2"}, MaxCr=10)
    r.sim("random", "Ecdh", EcdhAdapter, c, o, f, r.pick(40, 600), 30)
