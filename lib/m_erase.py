"""*Erase.tla <-> the memory every operation gives back.

The driver keeps what is released while a command runs as it was at that moment, and looks in it for everything
secret that it knew before the command, knows after it, or that the engine was given or gave in between."""
from mbt import *
from checks import check
import m_context, m_packet, m_identity, m_crypto, m_data, m_stream, m_transport, m_objects, m_publish
class Absent(dict):
    def get(self, k, d=None): return self[k] if k in self else False if k.startswith("left:") else d
class Erasing:
    base, strict = None, False
    def __init__(self, rnd, opts): self.b = self.base(rnd, opts)
    def setup(self): return self.b.setup() + ["er_mode on"]
    def cmds(self, v): return self.b.cmds(v)
    def observe(self, v, res):
        held = {x for y in res for x in y["held"]}; left = {x for y in res for x in y["left"]}
        d = {"left:" + x: x in left for x in held}; d["asked"] = True
        return (d if self.strict else Absent(d)), {}
def over(cls, strict=False): return type("Erasing" + cls.__name__, (Erasing,), {"base": cls, "strict": strict})
f_all = lambda d: True
def silent(**kw): return {op: w for w, ops in kw.items() for op in ops.split()}
def go(r, label, module, cls, c, o, sil, how="graph", **kw):
    c = dict(c, Silent=sil)
    if how == "graph": r.graph(label, module + "Erase", over(cls, module == "Objects"), c, o, f_all, ["Known"] if module == "Objects" else (), (), pre="E", **kw)
    else: r.sim(label, module + "Erase", over(cls, module == "Objects"), c, o, f_all, pre="E", **kw)
OB = {"Copy", "Drop", "Ser", "Null"}
STREAM = silent(engine="New", all="Ref Rel Copy Enc Dec EncFault Many")
CONTEXT = silent(all="Account New NewSig Gen RootKeys RkExport MakeRec Key Export Copy Ver Cipher Decipher Pair Owner Ser Talk", engine="RecRk Rec PassRec Import From")
TRANSPORT = silent(session="Start Tx TxNull RxNull TxFault Recopy Done Deliver Twin")
PACKET = silent(all="Encode", keys="Open")
KDF = silent(all="Gen Make Expand Derive Ser Read Copy Seal Unseal")
ECDH = silent(all="Enc Dec Change Secret")
CIPHER = silent(all="Enc Dec Mix Change Same KeySame KeyBad KeyRand")
IDENTITY = silent(all="SetRoot SetKey SetSig SetNode SetChain Rotate SetEKey SetESig DropPair CheckChain CheckNode CheckOwner Grow Fresh Poke Copy Round")
SIGN = silent(all="Sign SignPub Mac ToSer ToRaw FromSer FromRaw CopySig Mut Verify VerifyMac")
PUBLISH = silent(all="Take Copy Erase Rotate Publish PubPri Print Sign Packet Export", engine="Read")
DEVICE = silent(all="New Derive Again Copy None")
@check("D10")
def D10(r):
    P = r.pick
    # objects of every kind, with every choice of one absent part: copied, encoded, destroyed
    for label, ks in (("objects", m_objects.SMALL), ("node", ["node"]), ("parsed", ["parsed"]), ("contexts as objects", ["ctx", "gen"])):
        c = m_objects.OC(ks, Few=r.quick, Kinds={"Make", "Copy", "Drop", "Ser"}, MaxG=0)
        go(r, label, "Objects", m_objects.ObjAdapter, c, c, OB, maxlen=30, limit=P(1500, 40000))
    # contexts, accounts, exports
    ck = m_context
    for label, ks, n in (("contexts", "Account New NewSig Gen Copy Ser From Cipher Decipher Pair Owner", 3), ("recovery", "New MakeRec Key RecRk Rec", 4), ("recovery by passphrase", "New MakeRec Export PassRec", 4), ("exports", "New Export Import", 3), ("account keys", "New Key RootKeys RkExport RecRk NewSig Gen", 4)):
        go(r, label, "Context", ck.CAdapter, c := ck.K(ks, Devs={"d1"}, MaxObj=P(n, n + 1)), c, CONTEXT, limit=P(150, 20000))
    m = m_packet
    go(r, "packets", "Packet", m.A, c := m.W(["A1", "B1", "C1"], [("B1", 1), ("C1", 1)], [[m.d("B1")], [m.d("B1"), m.d("C1")]], [m.cl("A1"), m.cl("C1")], Vers={2, 4}), dict(c, crowd=0), PACKET, limit=P(150, None))
    go(r, "identities", "Identity", m_identity.Adapter, c := m_identity.C(Kinds=(m_identity.NODEK | {"Grow"}), Chains={("A", "n1", "A:n1"), ("A", "n1", "A:n1!")}, EKeys={"e1"}, ESigs={"n1:e1", "n1:e1!", "none"}), m_identity.C(), IDENTITY, limit=P(500, None))
    go(r, "signatures", "Sign", m_identity.SAdapter, c := m_identity.SC(Data={"d1", "bit"}, Forms={"obj", "pub"}, Muts={"flip"}), c, SIGN, limit=P(500, None))
    go(r, "ciphers", "Cipher", m_crypto.CipherAdapter, c := m_crypto.CC(MaxCr=1), c, CIPHER, limit=P(300, None))
    go(r, "key derivation", "Kdf", m_crypto.KdfAdapter, c := m_crypto.KC(Algos={"s17", "b15", "h256", "h512"}, MaxM=1, Kinds={"Gen", "Make", "Derive", "Ser", "Read", "Copy", "Seal", "Unseal"}), c, KDF, limit=P(500, None))
    c, o = m_crypto.EC(m_crypto.PS[:2], Ks={1, 2}); go(r, "key agreement", "Ecdh", m_crypto.EcdhAdapter, c, o, ECDH, limit=P(300, None))
    go(r, "device identities", "Device", m_data.DevAdapter, c := dict(Devs={"a", "b"}, Salts={"s", "t"}, MaxD=1, Kinds={"New", "Derive", "Again", "Copy"}), c, DEVICE, repeat=P(1, 10))
    c = m_stream.K(MaxSeq=3, Tampers={"none", "ct"}); go(r, "streams", "Stream", m_stream.Adapter, c, m_stream.O(c), STREAM, limit=P(500, None))
    c = m_stream.K(MaxSeq=2, MaxCts=1, Kinds={"New", "Enc", "Dec", "Copy", "Ref", "Rel"}); go(r, "copies of streams", "Stream", m_stream.Adapter, c, m_stream.O(c), STREAM, limit=P(500, None))
    go(r, "handshake and data", "Transport", m_transport.Adapter, c := m_transport.two("A", "B", "-", "A", "later", "yes", MaxWire=4, MaxSeqT=1), dict(c), TRANSPORT, limit=P(150, None))
    p = m_publish
    go(r, "what is given away", "Publish", p.A, c := p.C(p.OBJ, Forms={"chain", "node", "eph"}, NP=2, MaxObj=2), c, PUBLISH, limit=P(300, None))
    go(r, "exports given away", "Publish", p.A, c := p.C("Export Take Packet", Forms={"node"}, Acc=[1, 1], Kept=set(), MaxObj=1), c, PUBLISH)
    # long histories
    N = P(4, 200)
    c = m_objects.OC(m_objects.ALL, MaxO=6, MaxB=3, MaxM=1000, MaxG=1000, Kinds={"x"}); go(r, "long: every kind", "Objects", m_objects.ObjAdapter, c, c, OB, "sim", num=P(20, 400), depth=40)
    go(r, "long: packets", "Packet", m.A, c := m.anything(), c, PACKET, "sim", num=N, depth=30)
    go(r, "long: six endpoints", "Transport", m_transport.Adapter, c := m_transport.many(), dict(c), TRANSPORT, "sim", num=N, depth=60)
    go(r, "long: streams", "Stream", m_stream.Adapter, c := m_stream.K(**m_stream.BIG), m_stream.O(c), STREAM, "sim", num=N, depth=60)
    go(r, "long: contexts", "Context", ck.CAdapter, c := ck.K("", Kinds=ck.ALL - {"Talk"}, Devs={"d1", "d2", "d3"}, Passes={"p", "q"}, Texts={"t1", "t2", "t3"}, Ids={"x", "y"}, Vers={2, 3, 4}, MaxObj=22, EWays=ck.EW, RWays=ck.RW, CWays=ck.RW, Narrow=False), c, CONTEXT, "sim", num=N, depth=30)
