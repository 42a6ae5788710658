"""Objects.tla <-> every kind of object: copies, encodings, what is restored from them."""
from mbt import *
from checks import check
class ObjAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o, self.kind, self.enc = rnd, opts, {}, {}
    def setup(self): return ["ob_seed %d" % self.rnd.randrange(1, 1 << 30)]
    def cmds(self, v):
        op, k, r = v["op"], self.kind, self.rnd
        if op == "Make":
            k[v["i"]] = v["kind"]; w = list(v["w"])
            w += [x[:-6] + "chain.status" for x in w if x.endswith("status") and v["kind"] in ("node", "nodes")]
            return ["ob_make o%d %s %s %d" % (v["i"], v["kind"], "+".join(w) or "-", v["var"])]
        if op == "Copy": k[v["d"]] = k[v["i"]]; return ["ob_copy o%d o%d" % (v["d"], v["i"])]
        if op == "Drop": return ["ob_drop o%d" % v["i"]]
        if op == "Alter": return ["ob_alter o%d %s" % (v["i"], v["p"])]
        if op == "Ser": self.enc[v["b"]] = k[v["i"]]; return ["ob_ser b%d o%d" % (v["b"], v["i"])]
        if op == "From": k[v["i"]] = self.enc[v["b"]]; return ["ob_from o%d %s b%d" % (v["i"], k[v["i"]], v["b"])]
        if op == "Mangle": return ["ob_mangle %s b%d %d %s" % (self.enc[v["b"]], v["b"], self.o.get("n", 150), "+".join(v["need"]))]
        if op == "Null": return ["ob_null %s" % v["kind"]]
    def observe(self, v, res):
        x, t = dict(res[0]), {}
        if "all" in x:
            t = {"%s:%s" % (i, p): y for i, d in dict(x["all"]).items() for p, y in d.items() if y}
            x["all"] = {i: {p: y != 0 for p, y in d.items()} for i, d in dict(x["all"]).items()} or []
        if v["op"] == "Ser": x["hides"] = not x["secret"]; t.update({"bytes": x["bytes"]} if x["r"] else {})
        return x, t
ALL = "eckey sig ckey cres ident chain eph node kex set meta payload rootkeys storage streamkey packet encoded decoded parsed device kdf kdfresult tpacket troot ctx gen print ecdh ivs stream hsresult nodes exchanges".split()
ENC = "sig ckey cres ident chain eph node set payload rootkeys storage streamkey packet tpacket ctx".split()
def OC(kinds, **kw):
    d = dict(KindsUsed=set(kinds), Vars={1, 2}, MaxO=2, MaxB=1, MaxM=1, MaxG=1, Few=True, Kinds={"Make", "Copy", "Drop", "Alter", "Null"})
    d.update(kw); return d
INV, P = (), ["Apart", "Whole2"]
SMALL = [k for k in ALL if k not in ("nodes", "node", "parsed", "ctx", "gen")]
FIX = {"stream"}     # made in one variant only
def f_copy(d): return d.a["ev"]["op"] in ("Make", "Copy", "Alter", "Drop", "Null", "reset") or "crash" in d.got
def copied(d):
    """Is the divergence the copy's doing?  The same commands without the copies then answer differently."""
    if d.a["ev"]["op"] == "Recopy" or "crash" in d.got: return True
    if not any(c.startswith("tp_recopy") for c in d.cmds): return False
    (x, cx), (y, cy) = (run_sut(c) for c in (d.cmds, [c for c in d.cmds if not c.startswith("tp_recopy")]))
    if cx or cy or not x or not y: return bool(cx) != bool(cy)
    return any(x[-1].get(k) != y[-1].get(k) for k in ("st", "err", "cb"))
@check("D06")
def D06(r):
    f = f_copy
    for label, ks in (("all small kinds", SMALL), ("node", ["node"]), ("parsed", ["parsed"]), ("context", ["ctx", "gen"])):
        c = OC(ks, Few=r.quick)
        r.graph(label, "Objects", ObjAdapter, c, c, f, INV, P, maxlen=30, repeat=r.pick(1, 4), limit=r.pick(3000, 40000))
    if not r.quick:
        c = OC(["nodes"]); r.graph("nodes", "Objects", ObjAdapter, c, c, f, INV, P, maxlen=30)
        c = OC([k for k in SMALL if k not in ("set", "hsresult")], MaxO=3, MaxG=2); r.graph("copies of copies", "Objects", ObjAdapter, c, c, f, INV, P, maxlen=40, limit=20000)
    c = OC(ALL, MaxO=8, MaxB=3, MaxM=1000, MaxG=1000, Kinds={"x"})
    r.sim("every kind at once", "Objects", ObjAdapter, c, c, f, r.pick(60, 800), 40)
    from m_transport import many, two, Adapter as TA, INV as TI, PROPS as TP
    from m_stream import K, BIG
    c = many(Kinds={"Start", "Tx", "Deliver", "Done", "TxNull", "RxNull", "Recopy"}, Tampers={"none"})
    g = copied
    two_ = two("A", "B", "-", "A", MaxWire=3, MaxSeqT=1, Kinds={"Start", "Tx", "Deliver", "Done", "Recopy"})
    r.graph("transports, at every point", "Transport", TA, two_, dict(two_), g, TI, TP, limit=r.pick(600, None), maxlen=30)
    r.sim("transports", "Transport", TA, c, dict(c), g, r.pick(20, 300), 70, invs=TI)
@check("D01")
def D01(r):
    f = lambda d: True
    for label, ks in (("small kinds", [k for k in ENC if k not in ("node", "ctx", "set")]), ("node", ["node"]), ("set", ["set"]), ("context", ["ctx"])):
        c = OC(ks, MaxG=0, Few=r.quick, Kinds={"Make", "Ser", "From", "Copy"})
        r.graph("round trips: " + label, "Objects", ObjAdapter, c, c, f, INV, P, maxlen=30, repeat=r.pick(3, 12), limit=r.pick(3000, 40000))
    c = OC([k for k in ENC if k not in ("node", "ctx", "set")], Kinds={"Make", "Alter", "Ser", "From"}, Few=True)
    r.graph("altered", "Objects", ObjAdapter, c, c, f, INV, P, maxlen=30, repeat=r.pick(1, 6), limit=r.pick(1000, 20000))
    c = OC(ENC, MaxG=0, MaxO=1, Kinds={"Make", "Ser", "Mangle", "Drop", "Null"})
    r.graph("changed encodings", "Objects", ObjAdapter, c, dict(c, n=r.pick(150, 4000)), f, INV, P, maxlen=30, repeat=r.pick(1, 4))
    c = OC(ENC, MaxO=6, MaxB=4, MaxM=1000, MaxG=1000, Kinds={"Mangle"})
    r.sim("random", "Objects", ObjAdapter, c, dict(c, n=r.pick(20, 100)), f, r.pick(60, 800), 40)
