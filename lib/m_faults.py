"""*Faults.tla <-> every operation with every one of its primitives failing in turn.

The command that carries out an operation is run again and again (`sweep`), each time with the next of the calls that may
fail failing, on copies where the operation changes something, until a run needs no more of them."""
import copy
from mbt import *
from checks import check
import m_context, m_packet, m_identity, m_crypto, m_data, m_stream, m_transport, m_file

# commands whose first argument is where the result goes / that only answer
MAKES = set("rk_gen cx_new cx_newsig cx_gen rk_export cx_recovery rk_recover cx_recover cx_passrec cx_export cx_import cx_from cx_cipher ek_gen mp_parse pk_decode pk_encode "
            "sg_sign sg_toraw sg_fromraw hm_make sg_key cr_enc kd_gen kd_do kd_seal eh_make eh_enc fp_gen fp_pair di_make skey ck_make ec_form".split())
ASKS = set("cxs_dec ek_owner sg_verify hm_verify cr_dec kd_open dg ss eh_dec nd_owner".split())
# values that differ from one run to the next although nothing is wrong
TOKENS = set("iv ct tag salt k key hiv piv hdr pay eph enc hex root node npri rpri local remote dev hk ns rs nid rid msg srv pub reck txk rxk salthex ver pkt info cost".split())
def norm(x, keep=()): return {k: v for k, v in x.items() if k not in TOKENS or k in keep}

class Faulty:
    """Wraps the adapter of a specification; `Fail` events become sweeps."""
    base = None
    def __init__(self, rnd, opts): self.b = self.base(rnd, opts); self.rnd, self.i = rnd, []; self.at = 0; self.plan = []
    def setup(self): return self.b.setup()
    def space(self, s): return self.b.space(s) if hasattr(self.b, "space") else s
    def cmds(self, v):
        if v["op"] != "Fail": self.plan.append(None); return self.b.cmds(v)
        keep = {k: x for k, x in self.b.__dict__.items() if k not in ("rnd", "o")}
        saved = copy.deepcopy(keep)
        cs = self.b.cmds(v["target"])
        self.b.__dict__.update(saved)
        out, kinds = [], []
        for k, c in enumerate(cs): self.one(v["target"], c, cs[k + 1:], out, kinds)
        self.plan.append(kinds); return out
    def one(self, v, c, rest, out, kinds):
        w = c.split(); n = w[0]
        def add(x, kind=""): out.append(x); kinds.append(kind)
        if n in ("push", "drop"): add("drop " + w[1])
        elif n in MAKES:
            add("sweep %s F %s" % (n, " ".join(w[2:])), n)
            if any(w[1] in x.split()[1:] and x.split()[0] not in ("push", "drop") for x in rest): add(c)
        elif n in ASKS: add("sweep " + c, n)
        elif n.startswith("st_") and n[3:] in ("enc", "dec"): add("st_copy F " + w[1], "before"); add("sweep st_copy F %s ; %s F %s" % (w[1], n, "Z " + " ".join(w[3:]) if n == "st_enc" else " ".join(w[2:])), n)
        elif n in ("nd_chain", "nd_check", "nd_round", "nd_grow", "nd_fresh"): add("sweep nd_dup F %s ; %s" % (w[1], " ".join([n, "F"] + w[2:])), n)
        elif n.startswith("tp_") and n[3:] in ("start", "tx", "rx", "done"): add("sweep tp_clone F %s ; %s F %s" % (w[1], n, " ".join(w[2:])), n)
        elif n == "f_op":
            src, pre = w[3], []
            if w[3] == w[4] or self.rnd.random() < .5: pre = ["f_read T " + w[3], "f_write sw T"]; src = "sw" if w[3] == w[4] else src
            else: pre = ["f_rm sw"]
            add("sweep " + " ; ".join(pre + ["f_op %s %s %s sw %s none" % (w[1], w[2], src, w[5])]), n); add("f_rm sw")
        else: add(c)
    # ---- what a refusal looks like
    def refused(self, n, x, before):
        if n in ("st_enc", "st_dec"): return x["ok"] is False and all(before.get(k) == x[k] for k in ("key", "evo", "last"))
        if n == "mp_parse": return not x["r"] or (x["err"] != "ok" and not x["fail"]) or x["sig"] != "valid" and not x["pay"] and not x["kex"] and not x["set"]
        if n == "pk_decode": return not x["r"] or x["err"] != "ok" and not x["pay"] and not x["key"]
        if n.startswith("tp_"): return x["st"] == "ERROR" and x["err"] != "NONE" and not {"tx", "rx", "tx-null"} & set(x["cb"])
        if n == "f_op": return not x["r"] and not x["left"]
        return x.get("r") is False
    def observe(self, v, res):
        k = self.plan[self.at]; self.at += 1
        if k is None: return self.b.observe(v, res)
        bad, before = [], {}
        for kind, x in zip(k, res):
            if kind == "before": before = x
            elif kind:
                for y in x["runs"]:
                    if self.refused(kind, y["x"], before) or y["x"] == x["good"]: continue
                    bad.append("%s: with call %d of %d failing: %s; undisturbed: %s" % (kind, y["n"], x["calls"], json.dumps(y["x"])[:600], json.dumps(x["good"])[:600]))
        return {"closed": not bad, "runs": bad[:4], "calls": sum(x.get("calls", 0) for kind, x in zip(k, res) if kind and kind != "before")}, {}
def over(cls): return type("Faulty" + cls.__name__, (Faulty,), {"base": cls})

def go(r, label, module, cls, c, o, kinds, how, **kw):
    """Both halves: exhaustive small instance or random walks; only the failing operations are judged here."""
    f = lambda d: "crash" in d.got or d.a["ev"]["op"] == "Fail"
    c = dict(c, FKinds=set(kinds.split()))
    if how == "graph": r.graph(label, module + "Faults", over(cls), c, o, f, (), ["Refused"], pre="F", **kw)
    else: r.sim(label, module + "Faults", over(cls), c, o, f, pre="F", **kw)

@check("D07")
def D07(r):
    P = r.pick
    # contexts
    ck = "Account New Gen NewSig RkExport MakeRec RecRk Rec PassRec Export Import From Cipher Decipher Pair"
    go(r, "contexts", "Context", m_context.CAdapter, c := m_context.K("Account New NewSig Gen Ser From Cipher Decipher Pair Owner", Devs={"d1"}, MaxObj=P(3, 4)), c, ck, "graph", limit=P(150, 20000))
    for label, ks, n in (("recovery", "New MakeRec Key RecRk Rec", 4), ("recovery by passphrase", "New MakeRec Export PassRec", 4), ("exports", "New Export Import", 3), ("account keys", "New Key RootKeys RkExport RecRk NewSig Gen", 4)):
        go(r, label, "Context", m_context.CAdapter, c := m_context.K(ks, Devs={"d1"}, MaxObj=n), c, ck, "graph", limit=P(120, 20000))
    # message packets
    m = m_packet
    go(r, "packets", "Packet", m.A, c := m.W(["A1", "B1", "C1"], [("B1", 1), ("C1", 1)], [[m.d("B1")], [m.d("B1"), m.d("C1")]], [m.cl("A1"), m.cl("C1")], Vers={2, 4}, Apis={"ctx", "nodecode", "stateless"}), dict(c, crowd=0), "Encode Open", "graph", limit=P(110, None))
    # identities, signatures, codes
    go(r, "identities", "Identity", m_identity.Adapter, c := m_identity.C(Kinds=(m_identity.NODEK | {"Grow"}) - {"Rotate"}, Chains={("A", "n1", "A:n1"), ("A", "n1", "A:n1!")}, EKeys={"e1"}, ESigs={"n1:e1", "n1:e1!", "none"}), m_identity.C(), "CheckChain CheckNode CheckOwner Round Grow Fresh", "graph", limit=P(500, None))
    go(r, "signatures", "Sign", m_identity.SAdapter, c := m_identity.SC(Data={"d1", "bit"}, Forms={"obj", "pub"}, Muts={"flip"}), c, "Sign Mac ToRaw FromRaw Verify VerifyMac", "graph", limit=P(500, None))
    # ciphers, key derivation, key agreement
    go(r, "ciphers", "Cipher", m_crypto.CipherAdapter, c := m_crypto.CC(MaxCr=1), c, "Enc Dec KeyRand", "graph", limit=P(300, None))
    go(r, "key derivation", "Kdf", m_crypto.KdfAdapter, c := m_crypto.KC(Algos={"s17", "b15", "h256", "h512"}, MaxM=1, Kinds={"Gen", "Make", "Derive", "Seal", "Unseal"}), c, "Gen Derive Seal Unseal", "graph", limit=P(300, None))
    c, o = m_crypto.EC(m_crypto.PS[:2], Ks={1, 2}); go(r, "key agreement", "Ecdh", m_crypto.EcdhAdapter, c, o, "Enc Dec Secret", "graph", limit=P(200, None))
    # fingerprints, device identities
    go(r, "fingerprints", "Print", m_data.PrintAdapter, c := m_data.PC(MaxF=2, Ids={"a"}), c, "Gen Two", "graph", limit=P(150, None))
    go(r, "device identities", "Device", m_data.DevAdapter, c := dict(Devs={"a", "b"}, Salts={"s", "t"}, MaxD=1, Kinds={"New", "Derive", "Again"}), c, "New Derive Again", "graph", repeat=P(1, 10))
    # streams, transports, files
    c = m_stream.K(MaxSeq=3, Aads={"a0", "a1"}); go(r, "streams", "Stream", m_stream.Adapter, c, m_stream.O(c), "Enc Dec", "graph", limit=P(200, None))
    go(r, "handshake and data", "Transport", m_transport.Adapter, c := m_transport.two("A", "B", "-", "A", "later", "yes", MaxWire=4, MaxSeqT=1), dict(c), "Start Tx Deliver Done", "graph", limit=P(90, None))
    go(r, "files", "File", m_file.FileAdapter, c := m_file.FC(Keys={"k1"}, Plains={0, 1}), c, "Enc Dec", "graph", limit=P(200, None), maxlen=20)
    # long histories
    N = P(4, 200)
    go(r, "long: packets", "Packet", m.A, c := m.W(m.NM5, [(x, k) for x in m.NM5 for k in (1, 2)], m.GOOD, [m.cl("A1"), m.cl("B1"), m.cl("C1")], Senders={"A1", "B1", "C1"}, MaxPk=8, Kinds={"Encode", "Open", "Tamper"}, Ways=m.ALLW), dict(c, crowd=0), "Encode Open", "sim", num=N, depth=20)
    go(r, "long: six endpoints", "Transport", m_transport.Adapter, c := m_transport.many(), dict(c), "Start Tx Deliver Done", "sim", num=N, depth=60)
    go(r, "long: streams", "Stream", m_stream.Adapter, c := m_stream.K(**m_stream.BIG), m_stream.O(c), "Enc Dec", "sim", num=N, depth=60)
