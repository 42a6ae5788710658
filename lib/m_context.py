"""Context.tla <-> wickr_ctx_*, wickr_root_keys_*, wickr_storage_keys_*."""
from mbt import *
from checks import check

KD = {1: "scrypt17", 2: "scrypt18", 3: "scrypt19", 4: "scrypt20", 5: "bcrypt15"}
class CAdapter:
    """Object i lives in slot o<i>; identifiers, passphrases and texts are drawn from boundary sizes for every behaviour."""
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts
    def setup(self):
        r, c = self.rnd, []
        for n, d in enumerate(sorted(self.o["Devs"])): c += ["buf sys_%s rand %d" % (d, r.choice([1, 16, 32, 64])) if not n or r.random() < .5 else "mutate sys_%s sys_%s flip -1 1" % (d, sorted(self.o["Devs"])[0]) if n == 1 else "mutate sys_%s sys_%s pad 3" % (d, sorted(self.o["Devs"])[0]), "di_make dv_%s sys_%s" % (d, d)]
        p0 = bytes(r.randrange(1, 256) for _ in range(r.choice([2, 8, 12, 31, 32, 64, 65, 66, 73, 129, 200])))
        for n, p in enumerate(sorted(self.o["Passes"])): c.append("buf pw_%s hex %s" % (p, [p0, p0[:-1] + bytes([p0[-1] ^ 1 or 2]), p0 + b"\1"][n].hex()))
        for x in sorted(self.o["Texts"]): c.append("buf tx_%s rand %d" % (x, r.choice([8, 16, 17, 100, 4096, 20000])))
        for i in sorted(self.o["Ids"]): c.append("buf id_%s rand %d" % (i, r.choice([8, 16, 32, 33, 100, 127])))
        return c
    def o_(self, i): return "o%d" % i
    def bytes_(self, w, t, n):
        r = self.rnd
        h = 17 if t == "e" else 0                              # where the cipher result starts
        fl = lambda p, q: "flip %d %d" % (r.randrange(p, q), 1 << r.randrange(8))
        return {"kdf": lambda: "set 0 %02x" % r.choice([2, 3, 4]), "kdfbad": lambda: "set 0 %02x" % r.choice([0, 6, 7, 8, 9, 10, 255]), "kdfbc": lambda: "set 0 05",
                "salt": lambda: fl(1, 17), "cipher": lambda: "set %d 01" % h, "cipherbad": lambda: "set %d %02x" % (h, r.choice([2, 3, 127, 255])), "iv": lambda: fl(h + 1, h + 13), "tag": lambda: fl(h + 13, h + 29),
                "ct": lambda: "flip -%d %d" % (r.randrange(1, n), 1 << r.randrange(8)), "trunc": lambda: "trunc -%d" % r.choice([1, 1, 2, 16, n]), "short": lambda: "trunc %d" % r.choice([1, 2, 16, 17, 18, 28, 29, 30, 45, 46] if h else [1, 2, 12, 13, 28, 29]),
                "ext": lambda: "ext 00", "cut": lambda: "cut %d 1" % r.randrange(h + 1, h + 35)}[w]()

    NM = ("root", "rpri", "node", "npri", "nid", "rid", "local", "remote", "dev", "hk", "ns", "rs", "iv", "ct", "salt", "k", "t", "pub", "reck")
    def cmds(self, v):
        r, op = self.rnd, v["op"]; o = self.o_; d = None
        dv = lambda: "dv_" + v["dev"]
        if op == "Account": c = ["rk_gen T"]
        elif op == "Mix": c = ["rk_mix T %s %s %s %s" % (o(v["i"]), o(v["j"]), o(v["k"]), o(v["p"]) if v["p"] else "-")] + (["rk_copy T T"] if r.random() < .3 else [])
        elif op == "Vary":
            i = o(v["i"]); s = {"sig": ("Q", i, i, "Q"), "ns": (i, "Q", i, i), "rs": (i, i, "Q", i)}[v["part"]]
            c = ["rk_gen Q", "rk_mix T %s %s %s %s" % s]
        elif op == "New": c = ["cx_new T %s id_%s" % (dv(), v["id"])]
        elif op == "NewSig": c = ["rk_sig sk %s" % o(v["i"]), "cx_newsig T %s id_%s sk" % (dv(), v["id"])]
        elif op == "Gen": c = ["cx_gen T %s %s id_%s" % (o(v["i"]), dv(), v["id"])]
        elif op == "RootKeys": c = ["cx_rootkeys T " + o(v["c"]), "rk_show T"]
        elif op == "RkExport": c = ["rk_export T %s %s" % (o(v["i"]), o(v["k"]))]
        elif op == "MakeRec": c = ["cx_recovery T " + o(v["c"])]
        elif op == "Key": c = ["cx_recoverykey T " + o(v["c"])]
        elif op == "Later": c = ["rk_later T %s %s %d" % (o(v["m"]), o(v["k"]), r.choice([2, 3, 100, 127, 128, 255, 256, 257, 65537, 2**31, 2**32 - 1]))]
        elif op == "RecRk": c = ["rk_recover T %s %s" % (o(v["m"]), o(v["k"]))]
        elif op == "Rec": c = ["cx_recover T %s %s %s id_%s" % (dv(), o(v["m"]), o(v["k"]), v["id"])]
        elif op == "PassRec": c = ["cx_passrec T %s %s pw_%s %s id_%s" % (dv(), o(v["e"]), v["p"], o(v["m"]), v["id"])]
        elif op == "Export": c = ["cx_export T %s %s pw_%s" % (o(v["c"]), v["kind"], v["p"])]
        elif op == "Import": c = ["cx_import T %s %s pw_%s %s" % (o(v["e"]), v["kind"], v["p"], dv())]
        elif op == "Ser": c = ["cx_ser T " + o(v["c"])]
        elif op == "From": c = ["cx_from T %s %s" % (o(v["m"]), dv())]
        elif op == "Copy": c = ["cx_%s T %s" % ("gcopy" if v["whole"] else "copy", o(v["c"]))]
        elif op == "Ver": return ["cx_ver %s %d" % (o(v["c"]), v["ver"]), "cx_show " + o(v["c"])]
        elif op == "Mod":
            t, w = v["w"].split(".")
            c = ["mutate T %s %s" % (o(v["m"]), "trunc %%%d" % r.randrange(1, 1000) if t == "s" else self.bytes_(w, t, 8))]
        elif op == "Cipher": c = ["cx_cipher T %s %s tx_%s ser" % (o(v["c"]), v["w"], v["x"])]
        elif op == "Decipher": return ["cxs_dec %s %s %s" % (o(v["c"]), v["w"], o(v["m"]))]
        elif op == "Pair":
            c = ["ek_gen T %s %d" % (o(v["c"]), r.choice([0, 1, 255, 2**32, 2**64 - 1, r.randrange(2**64)]))]
        elif op == "Owner": return ["ek_owner %s %s" % (o(v["e"]), o(v["c"]))]
        elif op == "Talk":
            return ["ek_gen te %s %d" % (o(v["b"]), r.randrange(2**64)), "ek_key tk te", "nd_of tn %s te %s" % (o(v["b"]), o(v["b"])), "buf tg rand 8", "buf tb rand 50", "pl_make tp 1 2 3 tg tb",
                    "pk_encode tpk %s tp tn" % o(v["a"]), "cx_chain tc " + o(v["a"]), "mp_parse tq ctx %s tpk tc" % o(v["x"]), "pk_decode td %s tq tk" % o(v["x"]), "buftok tb"]
        else: raise CheckError(op)
        return c + (["drop T"] if op == "Import" and v["kind"] == "storage" else ["push T o"])
    def observe(self, v, r):
        op = v["op"]; x = dict(r[-1])
        if op == "Talk":
            p, d = r[-3], r[-2]
            return {"parse": "none" if not p["r"] else p["sig"] + "/" + p["err"], "dec": "null" if not d["r"] else d["err"] if d["err"] != "ok" or d["body"] == r[-1]["t"] else "wrong"}, {}
        x = [y for y in r if "r" in y][-1] if op != "Import" else r[0]
        if op == "Export" and x["r"]: x = dict(x, cost=KD.get(x["kdf"], "?"), cipher={0: "gcm", 1: "ctr"}.get(x["cipher"], "?"))
        nm = {k: x[k] for k in self.NM if k in x}
        return x, nm

EW = {"e." + w for w in ("kdf", "kdfbad", "kdfbc", "salt", "cipher", "cipherbad", "iv", "tag", "ct", "trunc", "short", "ext", "cut")}
RW = {"r." + w for w in ("cipher", "cipherbad", "iv", "tag", "ct", "trunc", "short", "ext", "cut")}
ALL = {"Account", "Mix", "Vary", "New", "NewSig", "Gen", "RootKeys", "RkExport", "MakeRec", "Key", "Later", "RecRk", "Rec", "PassRec", "Export", "Import", "Ser", "From", "Copy", "Ver", "Mod", "Cipher", "Decipher", "Pair", "Owner", "Talk"}
def K(kinds, **kw):
    d = dict(Devs={"d1", "d2"}, Passes={"p"}, Texts={"t1"}, Ids={"x"}, Vers={4}, MaxObj=4, Kinds=set(kinds.split()), EWays=set(), RWays=set(), CWays=set(), Narrow=True)
    d.update(kw); return d
INV = ["SameStore", "OwnNode", "CanSign"]
PROPS = ["Bound", "Recovers", "OnlyPass", "Intact", "Elsewhere", "Owns"]
def G(r, label, c, focus, **kw): r.graph(label, "Context", CAdapter, c, c, focus, INV, PROPS, **kw)
def on(*ops): return lambda d: "crash" in d.got or d.a["ev"]["op"] in ops
MADE = ("New", "NewSig", "Gen", "Rec", "PassRec", "From", "Copy", "Import")
def rand(r, focus, num, depth=30, kinds=ALL):
    c = K("", Kinds=set(kinds), Devs={"d1", "d2", "d3"}, Passes={"p", "q"}, Texts={"t1", "t2", "t3"}, Ids={"x", "y"}, Vers={2, 3, 4}, MaxObj=22, EWays=EW, RWays=RW, CWays=RW, Narrow=False)
    r.sim("random", "Context", CAdapter, c, c, focus, num, depth, INV)
@check("C01")
def C01(r):
    f = on("Cipher", "Decipher", *MADE)
    G(r, "accounts and devices", K("Account Gen Cipher Decipher", MaxObj=5), f, limit=r.pick(600, None))
    G(r, "restored and mixed", K("New Mix RootKeys Gen Ser From Copy Cipher Decipher", MaxObj=r.pick(4, 5)), f, limit=r.pick(600, 20000))
    G(r, "root keys that differ in one part", K("Account Vary Gen", Devs=r.pick({"d1"}, {"d1", "d2"}), MaxObj=r.pick(4, 5)), f, repeat=r.pick(2, 5), limit=r.pick(None, 20000))
    G(r, "modified", K("New Cipher Decipher Mod", Devs={"d1"}, CWays=RW, MaxObj=4), f, repeat=r.pick(2, 20))
    rand(r, f, r.pick(40, 800), kinds=ALL - {"Talk"})
@check("C02")
def C02(r):
    f = on("RecRk", "Rec", "PassRec", "MakeRec", "Decipher", "Key", "RkExport")
    G(r, "recovery", K("New MakeRec Key RecRk Rec Gen", Devs={"d1"}, MaxObj=5), f, limit=r.pick(800, None))
    G(r, "repeated", K("New MakeRec Key Rec Cipher Decipher", MaxObj=r.pick(5, 6), Devs=r.pick({"d1"}, {"d1", "d2"})), f, limit=r.pick(500, 20000))
    G(r, "modified", K("New MakeRec Key Rec RecRk Mod", Devs={"d1"}, MaxObj=4, RWays=RW), f, repeat=r.pick(3, 40))
    G(r, "of a later version", K("New MakeRec Key Later RecRk Rec", Devs={"d1"}, MaxObj=4), f, repeat=r.pick(3, 20))
    G(r, "root keys that cannot sign", K("Account Mix New Key RkExport RecRk Rec", Devs={"d1"}, MaxObj=r.pick(4, 5)), f, limit=r.pick(300, None))
    rand(r, f, r.pick(40, 800), kinds=ALL - {"Talk", "Pair", "Owner"})
@check("C03")
def C03(r):
    from m_crypto import KC, KdfAdapter
    f = on("Export", "Import", "PassRec", "Seal", "Unseal", "Craft", "Spoil")
    G(r, "exports", K("New Export Import", Passes={"p", "q"}, MaxObj=4), f, limit=r.pick(500, None))
    G(r, "modified", K("New Export Import Mod", Devs={"d1"}, MaxObj=3, EWays=EW), f, repeat=r.pick(4, 60))
    G(r, "recovery by passphrase", K("New Export MakeRec PassRec", Devs={"d1"}, Passes={"p", "q"}, MaxObj=r.pick(4, 5)), f, limit=r.pick(500, None))
    rand(r, f, r.pick(40, 800), kinds=ALL - {"Talk", "Pair", "Owner"})
    c = KC(Algos={"s17", "s18", "b15", "h256"}, Kinds={"Seal", "Craft", "Spoil", "Unseal"})
    r.graph("sealed under a password", "Kdf", KdfAdapter, c, c, f, (), ["OnlySame", "OnlyStrong"], repeat=r.pick(1, 10))
@check("C04")
def C04(r):
    f = on("From", "Import", "Copy", "Talk", "Decipher", "Owner")
    G(r, "restored", K("New Ser From Export Import Copy", MaxObj=r.pick(4, 5)), f, limit=r.pick(800, 20000))
    G(r, "used after", K("New Ser From Export Import Talk Cipher Decipher", MaxObj=r.pick(4, 5)), f, limit=r.pick(500, 20000))
    G(r, "truncated", K("New Ser From Mod Export Import", Devs={"d1"}, MaxObj=3, EWays=EW, RWays=RW), f, repeat=r.pick(8, 100))
    rand(r, f, r.pick(40, 800))
@check("C05")
def C05(r):
    f = on("Owner", "Pair", "Account", "Mix", "RootKeys", *MADE)
    G(r, "key pairs", K("New Gen RootKeys Copy Pair Owner", MaxObj=r.pick(4, 5)), f, limit=r.pick(600, 20000))
    G(r, "mismatched", K("Account Mix NewSig Gen New Pair Owner", Devs={"d1"}, MaxObj=4), f, limit=r.pick(600, 20000))
    rand(r, f, r.pick(40, 800), kinds=ALL - {"Talk"})
