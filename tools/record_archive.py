#!/usr/bin/env python3
"""Records archive/golden.json from the library at VP_REPO.  Run once; never by a check."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
from core import run_sut
C, keep, facts = [], [], {}
def do(*c): C.extend(c)
def hexof(name, slot=None): keep.append((name, len(C), "hex")); C.append("bufhex " + (slot or name))
DEV = {"A1": "d1", "A2": "d2", "B1": "d3"}
for i, d in enumerate(("d1", "d2", "d3")):
    do("buf sys_%s rand 32" % d); hexof("sys_" + d)
    do("di_make dv_%s sys_%s" % (d, d), "di_salt salt_%s dv_%s" % (d, d)); hexof("salt_" + d)
    keep.append(("f_di_" + d, len(C), "hex")); do("av_di dv_%s" % d)
for n, k in (("id_a", 32), ("id_b", 16), ("pw_A1", 12), ("pw_A2", 31), ("pw_B1", 70), ("pw_rec", 20), ("body", 300), ("tag", 32), ("text", 1000)): do("buf %s rand %d" % (n, k)); hexof(n)
do("cx_new A1 dv_d1 id_a", "cx_rootkeys rk A1", "cx_gen A2 rk dv_d2 id_a", "cx_new B1 dv_d3 id_b")
for c in DEV:
    do("cx_ser s_%s %s" % (c, c)); hexof("s_" + c)
    do("cx_export e_%s %s ctx pw_%s" % (c, c, c)); hexof("e_" + c)
    do("cx_export g_%s %s storage pw_%s" % (c, c, c)); hexof("g_" + c)
    do("cx_chain ch_%s %s" % (c, c), "av_chain c_%s ch_%s" % (c, c)); hexof("c_" + c)
    do("ek_gen ek_%s %s %d" % (c, c, 7), "ek_key kk_%s ek_%s" % (c, c), "av_pri k_%s kk_%s" % (c, c)); hexof("k_" + c)
    do("nd_of n_%s %s ek_%s %s" % (c, c, c, c))
    for w in ("local", "remote"): do("cx_cipher x_%s_%s %s %s text ser" % (c, w, c, w)); hexof("x_%s_%s" % (c, w))
do("cx_recovery rec A1"); hexof("rec")
do("cx_recoverykey rk0 A1", "ck_ser reckey rk0"); hexof("reckey")
do("cx_export recpass A1 recoverykey pw_rec"); hexof("recpass")
do("pl_make pl 11 22 333 tag body")
for m, s, v, r in (("m2", "A1", 2, "B1"), ("m3", "A1", 3, "A2 B1"), ("m4", "A1", 4, "A2 B1"), ("n4", "B1", 4, "A1")):
    do("cx_ver %s %d" % (s, v), "pk_encode %s %s pl %s" % (m, s, " ".join("n_" + x for x in r.split()))); hexof(m)
do("skey sk GCM 2", "av_skey skey sk"); hexof("skey"); do("st_new st sk E")
for n in (1, 2, 3, 5, 8, 20):
    do("st_enc st q body tag %d" % n, "cr_ser q%d q" % n); hexof("q%d" % n)
do("st_new se sk E")
for n in (2, 9): keep.append(("f_evo_%d" % n, len(C), "hex")); do("av_evo se %d" % n)
do("buf big rand 3000"); hexof("big")
do("ck_make fk GCM", "ck_ser fkey fk"); hexof("fkey"); do("f_write p big", "f_op enc fk p c 1 none", "f_read file c"); hexof("file")
do("ck_make ck CTR", "ck_ser ckey ck"); hexof("ckey"); do("cr_enc cc text - ck", "cr_ser ctr cc"); hexof("ctr"); do("cr_enc gg text tag fk", "cr_ser gcm gg"); hexof("gcm")
for d in ("256", "384", "512"):
    do("sg_sign sg kk_A1 body " + d, "sg_ser sg_%s sg" % d); hexof("sg_" + d)
    do("hm_make hm_%s tag body %s" % (d, d)); hexof("hm_" + d)
    keep.append(("f_dg_" + d, len(C), "hex")); do("dg body tag " + d)
for k in ("s17", "s18", "s19", "s20", "b15", "h256", "h384", "h512"):
    keep.append(("f_kd_" + k, len(C), "hex")); do("kd_gen kr %s pw_A1" % k); do("kd_of km kr", "kd_ser kd_%s km" % k); hexof("kd_" + k)
    if k[0] == "s": do("kd_seal ks_%s %s GCM body pw_A2" % (k, k)); hexof("ks_" + k)
for x in ("ex", "ey"): do("ec_rand " + x, "av_pri %s_pri %s" % (x, x)); hexof(x + "_pri")
do("av_ss f_ss ex ey"); hexof("f_ss")
do("kd_meta em h512 tag body", "eh_make eh ex GCM", "eh_enc er eh text ey em", "cr_ser ecdh er"); hexof("ecdh")
for x in ("ex", "ey"):
    do("fp_gen fp_%s %s id_a" % (x, x))
    for c in ("b32", "hex"):
        for m in ("long", "short"): keep.append(("f_fp_%s_%s_%s" % (x, c, m), len(C), "text")); do("fp_show fp_%s %s %s" % (x, c, m))
do("fp_pair fp fp_ex fp_ey"); keep.append(("f_fp_pair", len(C), "text")); do("fp_show fp b32 long")
for c in ("A1", "B1"): do("cx_from t%s s_%s dv_%s" % (c, c, DEV[c]), "av_own o_%s t%s" % (c, c))
do("ec_rand te", "av_pri te_pri te"); hexof("te_pri")
do("tp_new a o_A1 - 3 yes", "tp_new b o_B1 - 2 yes", "av_preset te -", "tp_start a", "tp_rx b w1", "tp_rx a w2")
keep.append(("f_tk", len(C), "hex")); do("tp_keys a")
do(*["tp_tx b " + ("body" if i % 2 else "text") for i in range(6)])
for i in range(1, 9): hexof("w%d" % i)
C.insert(0, "reset"); keep = [(n, i + 1, k) for n, i, k in keep]
res, crash = run_sut(C, 600)
assert not crash, crash
json.dump({n: res[i][k] for n, i, k in keep}, open(V + "/archive/golden.json", "w"), indent=0, sort_keys=True)
print(len(keep), "items")
