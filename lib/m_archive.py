"""Archive.tla <-> everything that reads encodings, over archive/golden.json (recorded by tools/record_archive.py)."""
import os
from mbt import *
from checks import check
GOLD = json.load(open(os.path.join(VERIF, "archive", "golden.json")))
BUFS = [k for k in GOLD if not k.startswith("f_") or k == "f_ss"]
class AvAdapter:
    def __init__(self, rnd, opts): self.rnd, self.o = rnd, opts
    def setup(self):
        c = ["buf %s hex %s" % ("g" + k if k[0] == "w" else k, GOLD[k]) for k in BUFS]
        c += ["di_make dv_%s sys_%s salt_%s" % (d, d, d) for d in ("d1", "d2", "d3")]
        for x in ("A1", "A2", "B1"): c += ["av_chain_from ch_%s c_%s" % (x, x), "av_key kk_%s k_%s 1" % (x, x)]
        c += ["av_key %s %s_pri 1" % (x, x) for x in ("ex", "ey")] + ["ck_from rk reckey", "ck_from fk fkey", "ck_from ck ckey", "ck_make ok GCM", "av_skey_from sk skey", "st_new st sk D", "st_new se sk E", "f_write file file", "buf sgb hex " + GOLD["w1"][-286:], "sg_from sgw sgb", "av_key te te_pri 1", "cx_from tA s_A1 dv_d1", "av_own own tA", self.new()]
        return c
    def new(self): return "tp_new pe own - %d yes" % self.rnd.choice([1, 3, 512])
    def cmds(self, v):
        op = v["op"]; H = lambda i: "h%d" % i
        if op == "Ser": return ["cx_from T s_%s dv_%s" % (v["c"], v["d"]), "push T h"]
        if op == "Imp": return ["cx_import T e_%s ctx pw_%s dv_%s" % (v["c"], v["p"], v["d"])] + (["push T h"] if v["p"] == v["c"] else [])
        if op == "Keys": return ["cx_import T g_%s storage pw_%s" % (v["c"], v["p"])]
        if op == "Rec": return [("cx_recover T dv_%s rec rk id_a" % v["d"]) if v["by"] == "key" else "cx_passrec T dv_%s recpass pw_rec rec id_a" % v["d"], "push T h"]
        if op == "Chain": return ["av_chain_from T c_" + v["c"]]
        if op == "Read": return ["cxs_dec %s %s x_%s_%s" % (H(v["h"]), v["w"], v["c"], v["w"]), "buftok text"]
        if op == "Open": return ["mp_parse q ctx %s %s ch_%s" % (H(v["h"]), v["m"], v["cl"]), "pk_decode d %s q kk_%s" % (H(v["h"]), v["k"]), "buftok body", "buftok tag"]
        if op == "Next1": return ["cr_from q q%d" % v["n"], "st_dec st q tag %d" % v["n"], "buftok body"]
        if op == "File": return ["f_rm out", "f_op dec %s file out 1 none" % {"fkey": "fk", "ckey": "ck", "other": "ok"}[v["k"]], "f_read t out", "buftok t", "buftok big"]
        if op == "Text": return ["cr_from q " + v["x"], "cr_dec q %s %s 0" % ("tag" if v["a"] else "-", "fk" if v["x"] == "gcm" else "ck"), "buftok text"]
        if op == "Verify": return ["sg_from T sg_" + v["g"], "sg_verify T kk_%s %s" % (v["k"], v["b"])]
        if op == "Unseal": return ["kd_open ks_%s pw_%s" % (v["k"], v["p"]), "buftok body"]
        if op == "Agree": return ["cr_from q ecdh", "eh_make e %s GCM" % v["k"], "kd_meta em h512 tag " + v["i"], "ec_form pub ex pub", "eh_dec e q pub em", "buftok text"]
        if op == "Anew": return [self.new(), "tp_q pe"]
        if op == "Begin": return ["av_preset te sgw", "tp_start pe", "buftok gw1", "av_preset - -"]
        if op == "Answer": return ["tp_rx pe gw2", "tp_keys pe"]
        if op == "Data": return ["tp_rx pe gw%d" % (v["n"] + 2), "buftok " + ("text", "body")[(v["n"] - 1) % 2]]
        a, b = v["f"]
        if a == "di": return ["av_di dv_" + b]
        if a == "dg": return ["dg body tag " + b]
        if a == "hm": return ["hm_make T tag body " + b, "bufhex T", "hm_verify hm_%s tag body %s" % (b, b)]
        if a == "kd": return (["buf hs hex " + GOLD["kd_" + b][2:], "kd_meta km %s hs -" % b] if b[0] == "h" else ["kd_from km kd_" + b, "buftok body"]) + ["kd_do kr km pw_A1"]
        if a == "ss": return ["av_ss T ex ey", "bufhex T", "av_ss T ey ex", "bufhex T"]
        if a == "evo": return ["av_evo se " + b]
        g = ["fp_gen fx ex id_a", "fp_gen fy ey id_a", "fp_pair fz fx fy"]
        return g + ["fp_show fz b32 long" if b == "pair" else "fp_show f%s %s %s" % (b[1], b.split()[1], b.split()[2])]
    def observe(self, v, r):
        op = v["op"]; x = dict(r[0])
        if op in ("Ser", "Imp", "Rec", "Keys"): return x, {k: x[k] for k in ("root", "rpri", "node", "npri", "local", "remote", "dev") if k in x}
        if op == "Read" or op == "Unseal": x["same"] = x.get("t") == r[1]["t"]
        elif op == "Open":
            p, d = r[0], r[1]; ok = d["r"] and d["err"] == "ok"
            x = {"parse": "none" if not p["r"] else p["sig"] + "/" + p["err"], "dec": "null" if not d["r"] else d["err"],
                 "whole": not ok or (d["body"] == r[2]["t"] and d["tag"] == r[3]["t"] and [str(d[k]) for k in ("ttl", "bor", "type")] == ["11", "22", "333"])}
        elif op == "Next1": x = {"r": r[1]["ok"], "same": r[1]["pt"] == r[2]["t"]}
        elif op == "File": x = {"r": r[1]["r"], "whole": r[3]["t"] == r[4]["t"] if r[1]["r"] else not r[2]["r"]}
        elif op == "Text": x = {"r": r[1]["r"], "same": r[1]["t"] == r[2]["t"]}
        elif op == "Verify": x = {"r": r[1]["r"]}
        elif op == "Agree": x = {"r": r[4]["r"], "same": r[4]["t"] == r[5]["t"]}
        elif op in ("Anew", "Begin", "Answer", "Data"):
            y = r[0] if op in ("Answer", "Data") else r[1]
            x = {"st": y["st"], "got": "rx" in y["cb"], "same": True}
            if op == "Begin" and y["st"] == "INIT": x["same"] = y.get("pkt") == r[2]["t"]
            if op == "Answer" and y["st"] == "ACTIVE": x["same"] = r[1]["hex"] == GOLD["f_tk"]
            if op == "Data" and x["got"]: x["same"] = y.get("msg") == r[1]["t"]
        elif op == "Fact":
            a, b = v["f"]; g = GOLD.get
            if a in ("di", "dg", "evo"): s = r[0].get("hex") == g("f_%s_%s" % (a, b))
            elif a == "hm": s = r[1]["hex"] == g("hm_" + b) and r[2]["r"]
            elif a == "kd": s = r[2].get("hex") == g("f_kd_" + b)
            elif a == "ss": s = r[1]["hex"] == r[3]["hex"] == g("f_ss")
            else: s = r[3].get("text") == g("f_fp_" + b.replace(" ", "_"))
            x = {"same": bool(s)}
        return x, {}
@check("D09")
def D09(r):
    f = lambda d: True
    def G(label, kinds, n, **kw):
        c = dict(MaxHeld=n, Kinds=set(kinds.split())); r.graph(label, "Archive", AvAdapter, c, c, f, ["Lasting"], ["Entitled", "Continued"], **kw)
    G("contexts and stored data", "Ser Imp Keys Rec Read", r.pick(1, 2), limit=r.pick(None, 4000))
    G("messages", "Ser Imp Rec Open Chain", 1)
    G("streams, files, signatures, texts, derived values", "Next1 File Text Verify Unseal Agree Fact", 0)
    G("a recorded connection", "Begin Answer Data Anew", 0)
    c = dict(MaxHeld=6, Kinds=set("Ser Imp Keys Rec Read Open Chain Next1 File Text Verify Unseal Agree Fact Begin Answer Data Anew".split()))
    r.sim("random", "Archive", AvAdapter, c, c, f, r.pick(40, 3000), 50, ["Lasting"])
