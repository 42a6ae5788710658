"""Identity.tla, Sign.tla <-> identity chains, nodes, signatures and MACs."""
from mbt import *
from checks import check

class Adapter:
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts
    def setup(self):
        r = self.rnd; c = []
        for k in ("A", "B", "n1", "n2", "e1", "e2"): c.append("ec_rand k_" + k)
        c += ["ec_form k_junk k_A junk"]
        made = set(); dig = {}
        def sig(s):
            if s in made or s == "none": return
            made.add(s)
            base = s.rstrip("!?"); by, over = base.split(":")
            if s != base: sig(base); c.append("sg_copy s_%s s_%s" % (s, base))
            else: dig[s] = r.choice(["256", "384", "512", "512"]); c.append("sg_key s_%s k_%s k_%s %s" % (s, by, over, dig[s]))
            if s.endswith("!"): c.append("sg_mut s_%s %s" % (s, r.choice(["flip %d %d" % (r.randrange(8, 130), 1 << r.randrange(8)), "short %d" % r.choice([1, 2, 70])])))
            if s.endswith("?"): c.append("sg_mut s_%s dig %s" % (s, r.choice(sorted({"256", "384", "512"} - {dig[base]}))))
        for s in sorted(self.o["Sigs"] | self.o["ESigs"] | {x[2] for x in self.o["Chains"]} | {"A:n1", "n1:e1"}): sig(s)
        c.append("nd_make n k_A k_n1 s_A:n1 k_e1 s_n1:e1")
        return c
    def cmds(self, v):
        op = v["op"]; s = lambda x: "-" if x == "none" else "s_" + x
        k = lambda x: "k_" + x
        if op == "SetRoot": return ["nd_set n %s %s" % (self.rnd.choice(["root", "rootkey"]), k(v["r"]))]
        if op == "SetKey": return ["nd_set n key " + k(v["k"])]
        if op == "SetSig": return ["nd_set n sig " + s(v["s"])]
        if op == "SetNode": return ["nd_set n node %s %s" % (k(v["k"]), s(v["s"]))]
        if op == "SetChain": return ["nd_set n chain %s %s %s %d" % (k(v["c"][0]), k(v["c"][1]), s(v["c"][2]), v["asked"])]
        if op == "Rotate": return ["nd_set n rotate %s %s %d" % (k(v["e"]), s(v["es"]), v["copy"])]
        if op == "SetEKey": return ["nd_set n ekey " + k(v["e"])]
        if op == "SetESig": return ["nd_set n esig " + s(v["es"])]
        if op == "Grow": return ["nd_grow n k_%s %s %d" % (v["r"], v["how"], v["named"])]
        if op == "Fresh": return ["nd_fresh n k_%s %d" % (v["k"], v["pri"])]
        return {"DropPair": ["nd_set n drop"], "CheckChain": ["nd_chain n"], "CheckNode": ["nd_check n"], "Poke": ["nd_poke n %d" % v.get("ok", 0)],
                "Copy": ["nd_copy n"], "Round": ["nd_round n"], "CheckOwner": ["nd_owner n k_%s" % v.get("k")]}[op]
    def observe(self, v, r): return r[-1], {}

PROPS = ["StatusIsVerdict", "Grown", "Sound", "Complete", "NodeSound", "AskingIsPure"]
INV = ["NodeImpliesChain"]
def C(**kw):
    d = dict(Names={0, 20}, Roots={"A", "B", "junk"}, NKeys={"n1", "n2"}, Sigs={"A:n1", "A:n2", "B:n1", "A:n1!", "A:n1?", "none"}, EKeys={"e1", "e2"}, ESigs={"n1:e1", "n2:e1", "n1:e2", "n1:e1!", "n1:e1?", "none"},
             Chains={("A", "n1", "A:n1"), ("A", "n2", "A:n2"), ("B", "n1", "B:n1"), ("B", "n2", "A:n2"), ("A", "n1", "A:n1!")}, Kinds=set())
    d.update(kw); return d
CHAINK = {"Grow", "SetRoot", "SetKey", "SetSig", "SetNode", "SetChain", "CheckChain", "Poke", "Copy", "Round"}
NODEK = {"Fresh", "SetChain", "Rotate", "SetEKey", "SetESig", "DropPair", "CheckNode", "CheckChain", "CheckOwner", "Poke", "Copy", "Round"}
ALL = CHAINK | NODEK
def G(r, label, c, f, **kw): r.graph(label, "Identity", Adapter, c, c, f, INV, PROPS, **kw)
def f_I01(d): return "crash" in d.got or d.a["ev"]["op"] in ("CheckChain", "Copy", "Round", "CheckNode", "Grow")
def f_I02(d): return "crash" in d.got or d.a["ev"]["op"] in ("CheckNode", "CheckOwner", "Copy", "Round", "Rotate", "Fresh")
def gen_id(rnd):
    """Random histories that know the vocabulary only."""
    c = C(); ev = []
    for _ in range(60):
        x = rnd.choice(["SetSig", "SetChain", "Rotate", "Rotate", "SetEKey", "SetESig", "CheckNode", "CheckNode", "CheckNode", "CheckChain", "Copy", "Round", "SetRoot", "Poke", "DropPair", "Grow", "Fresh"] if len(ev) % 7 else ["SetChain"])
        e = {"op": x}
        if x == "SetSig": e["s"] = rnd.choice(sorted(c["Sigs"]))
        if x == "SetRoot": e["r"] = rnd.choice("AAAB")
        if x == "SetChain": e.update(c=list(rnd.choice(sorted(c["Chains"]) + [("A", "n1", "A:n1")] * 4)), asked=rnd.random() < .5)
        if x == "Rotate": e.update(e=rnd.choice(["e1", "e2"]), es=rnd.choice(["n1:e1", "n1:e2", "n1:e1", "n2:e1", "n1:e1!"]), copy=rnd.random() < .5); has = True
        if x == "SetEKey": e["e"] = rnd.choice(["e1", "e2"])
        if x == "Grow": e.update(r=rnd.choice("AAB"), how=rnd.choice(["root", "root", "pubonly", "node"]), named=rnd.choice([0, 20]))
        if x == "Fresh": e.update(k=rnd.choice(["n1", "n2"]), pri=rnd.random() < .7)
        if x == "SetESig": e["es"] = rnd.choice(sorted(c["ESigs"]))
        if x == "Poke": e["ok"] = rnd.random() < .7
        if x in ("SetEKey", "SetESig"):
            last = [y["op"] for y in ev if y["op"] in ("Rotate", "DropPair", "Fresh")]
            if last and last[-1] == "DropPair": continue
        ev.append(e)
    return ev
@check("I01")
def I01(r):
    G(r, "chain parts", C(Kinds=CHAINK), f_I01, repeat=r.pick(1, 6))
    K = {"A:n1", "A:A", "B:n1", "B:A", "A:n1!"}
    G(r, "root key as node key", C(Kinds=CHAINK - {"Grow", "SetChain"}, Roots={"A", "B"}, NKeys={"n1", "A"}, Sigs=K), f_I01)
    G(r, "names of identities", C(Kinds={"Grow", "CheckChain", "Round"}, Names={0, 1, 2, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255, 256, 257, 383, 384, 1000, 65536}), f_I01)
    r.sim("random", "Identity", Adapter, C(Kinds=ALL), C(), f_I01, r.pick(60, 1000), 60)
    r.trace("recorded", "Identity", Adapter, C(Kinds=ALL), C(), f_I01, gen_id, r.pick(3, 20))
@check("I02")
def I02(r):
    G(r, "node parts", C(Kinds=NODEK, Chains={("A", "n1", "A:n1"), ("A", "n2", "A:n2"), ("B", "n1", "B:n1"), ("A", "n1", "A:n1!")}, ESigs={"n1:e1", "n2:e1", "n1:e2", "n1:e1!", "none"}), f_I02, limit=r.pick(2500, None), repeat=r.pick(1, 3))
    G(r, "other digest", C(Kinds=NODEK - {"SetEKey", "Rotate"}, EKeys={"e1"}, Chains={("A", "n1", "A:n1"), ("A", "n1", "A:n1?")}, ESigs={"n1:e1", "n1:e1?"}), f_I02)
    G(r, "node key as ephemeral key", C(Kinds=NODEK - {"Fresh", "SetChain", "Poke"}, EKeys={"e1", "n1", "A"}, ESigs={"n1:e1", "n1:n1", "n1:A", "A:n1", "A:A"}), f_I02, limit=r.pick(800, None))
    r.sim("random", "Identity", Adapter, C(Kinds=ALL), C(), f_I02, r.pick(100, 1500), 60)
    r.trace("recorded", "Identity", Adapter, C(Kinds=ALL), C(), f_I02, gen_id, r.pick(3, 20))

# ------------------------------------------------------------------------------- signatures and MACs
class SAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o, self.pad = rnd, opts, 6
    def setup(self):
        r = self.rnd; c = []
        for k in sorted(self.o["Keys"]):
            c += ["ec_rand k_" + k] + ["ec_form k_%s_%s k_%s %s" % (k, f, k, f) for f in ("obj", "pub", "imported", "copy", "junk", "pubonly")]
        # lengths around what narrower counters hold, and messages that differ only beyond that
        n = r.choice([65535, 65536, 65537, 70000, 140000]) if r.random() < .15 else r.choice([16, 100, 255, 256, 257, 1000, 5000])
        c += ["buf d_d1 rand %d" % n, "mutate d_ext d_d1 pad %d" % (1 if r.random() < .5 else r.choice([256, 65536])), "mutate d_cut d_d1 trunc -1", "mutate d_bit d_d1 flip %d 1" % r.choice([0, n // 2, n - 1]), "buf d_other rand 16"]
        for k in sorted(self.o["MacKeys"]): c.append("buf m_%s rand %d" % (k, r.choice([16, 32, 64, 65, 128, 200])))
        return c
    def cmds(self, v):
        op, r = v["op"], self.rnd
        if op == "Sign": self.t, self.enc = "sig", "obj"; return ["sg_sign s k_%s_%s d_%s %s %s" % (v["k"], r.choice(["obj", "imported", "copy"]), v["d"], v["g"], v.get("z", "any"))]
        if op == "SignPub": return ["sg_sign none k_%s_%s d_%s %s" % (v["k"], r.choice(["pub", "pubonly"]), v["d"], v["g"])]
        if op == "Mac": self.t, self.enc = "mac", "raw"; return ["hm_make b m_%s d_%s %s" % (v["k"], v["d"], v["g"])]
        if op == "ToSer": self.enc = "ser"; return ["sg_ser b s"]
        if op == "ToRaw": self.enc = "raw"; return ["sg_toraw b s"]
        if op == "FromSer": self.enc = "obj"; return ["sg_from s b"]
        if op == "FromRaw": self.enc = "obj"; return ["sg_fromraw s b " + v["g"]]
        if op == "CopySig": return ["sg_copy t s", "sg_copy s t"]
        if op == "Verify": return ["sg_verify s k_%s_%s d_%s" % (v["k"], v["f"], v["d"])]
        if op == "VerifyMac": return ["hm_verify b m_%s d_%s %s" % (v["k"], v["d"], v["g"])]
        if op == "Mut":
            m = v["m"]
            if self.enc == "obj": return ["sg_mut s " + {"flip": "flip %d %d" % (r.randrange(3, 135), 1 << r.randrange(8)), "short": "short %d" % r.choice([1, 1, 2, 50, 500]), "ext": "ext"}[m]]
            if self.t == "mac": return ["mutate b b " + {"flip": "flip %d %d" % (r.randrange(-32, 32), 1 << r.randrange(8)), "short": "trunc %d" % r.choice([-1, -1, 1, 16]), "long": "ext %02x" % r.randrange(256)}[m]]
            if self.enc == "ser":
                dig = {"256": 1, "384": 2, "512": 3}[v["g"]]
                return ["mutate b b " + {"flip": "flip %d %d" % (-1 - r.randrange(120), 1 << r.randrange(8)), "curve": "flip 0 0x%x0" % r.randrange(1, 16), "unknown": "set 0 0%x" % r.choice([0, 4, 7, 15]),
                                         "empty": "trunc %d" % r.randrange(1, 3), "pad+": "set 1 %02x" % r.choice([141, 142, 200, 255]), "dig": "set 0 0%x" % dig}[m]]
            return ["mutate b b " + {"flip": "flip %d %d" % (r.randrange(132), 1 << r.randrange(8)), "short": "trunc %d" % r.choice([-1, 1, 66]), "long": "ext 00", "zero": "set 0 " + "00" * 66}[m]]
        raise CheckError(op)
    def observe(self, v, r):
        x = dict(r[-1]); op = v["op"]
        if op == "ToSer": x["len"] = "fixed" if x["len"] == 143 else x["len"]
        if op == "ToRaw": x["len"] = "raw" if x["len"] == 132 else x["len"]
        if op == "Mac": x["len"] = str(x["len"])
        return x, {}
def SC(**kw):
    d = dict(Keys={"A", "B"}, MacKeys={"m", "n"}, Data={"d1", "ext", "cut", "bit", "other"}, Digests={"256", "384", "512"}, Forms={"obj", "pub", "imported", "copy", "junk"},
             Muts={"flip", "short", "long", "ext", "zero", "curve", "unknown", "empty", "pad+", "dig"}, Kinds={"Sign", "SignPub", "Mac", "ToSer", "ToRaw", "FromSer", "FromRaw", "CopySig", "Mut", "Verify", "VerifyMac"}, Shapes={"any"})
    d.update(kw); return d
@check("I04")
def I04(r):
    c = SC(Keys={"A", "B"}, Data={"d1", "bit"}, Forms={"obj", "pub", "junk"})
    r.graph("signatures and MACs", "Sign", SAdapter, c, c, lambda d: True, (), ["OnlyGenuine", "Survives"], repeat=r.pick(2, 30))
    c = SC()
    r.graph("all data and key forms", "Sign", SAdapter, c, c, lambda d: True, (), ["OnlyGenuine", "Survives"], repeat=r.pick(1, 10), limit=r.pick(1500, None))
    z = SC(Keys={"A"}, Data={"d1"}, Digests={"512"}, Forms={"obj", "pub"}, Shapes={"r", "s"}, Kinds={"Sign", "ToSer", "ToRaw", "FromSer", "FromRaw", "CopySig", "Verify"})
    r.graph("signatures with leading zeros", "Sign", SAdapter, z, z, lambda d: True, (), ["OnlyGenuine", "Survives"], repeat=r.pick(1, 10))
    r.sim("random", "Sign", SAdapter, c, c, lambda d: True, r.pick(30, 500), 40)
