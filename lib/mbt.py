"""Model-based testing glue: TLC state graphs / simulations -> replay, recorded traces -> TLC acceptance."""
import json, random, time, os
from concurrent.futures import ThreadPoolExecutor
from core import *

def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        if not v: return "[x \\in {} |-> 0]"
        if all(isinstance(k, str) and k.isidentifier() for k in v): return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla(x)) for k, x in v.items()) + ")"
    raise TypeError(v)

def _consts(consts):
    """Definition overrides: works for every kind of constant."""
    defs, cfg = [], []
    for k, v in consts.items():
        defs.append("c_%s == %s" % (k, v if isinstance(v, Raw) else tla(v)))
        cfg.append("  %s <- c_%s" % (k, k))
    return "\n".join(defs), ("CONSTANTS\n" + "\n".join(cfg) + "\n") if cfg else ""

class Raw(str):
    """A constant given as a TLA+ expression."""

def seen(pre):
    """What is observed of a step: modules that look at something else than the base specification say what."""
    return "EAct" if pre == "E" else "act'"

def explore(module, consts, invs=(), props=(), edges=True, timeout=600, heap="6g", constraint=None, workers=1, maxlevel=None, pre=""):
    """Exhaustive check; with edges=True also returns the labelled state graph."""
    d, c = _consts(consts)
    t = "---- MODULE MC ----\nEXTENDS %s, Json\n%s\n" % (module, d)
    t += 'MCInit == Init /\\ PrintT("@I" \\o ToJson(View))\n'
    t += 'Edge == PrintT("@E" \\o ToJson([s |-> View, a |-> %s, t |-> View\']))\n' % seen(pre)
    t += 'MCSpec == MCInit /\\ [][%sNext]_vars\n' % pre
    if maxlevel: t += "LevelC == TLCGet(\"level\") <= %d\n" % maxlevel
    t += "====\n"
    cfg = "SPECIFICATION MCSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n" + c
    if edges: cfg += "ACTION_CONSTRAINT Edge\n"
    if constraint: cfg += "CONSTRAINT %s\n" % constraint
    if maxlevel: cfg += "CONSTRAINT LevelC\n"
    for i in invs: cfg += "INVARIANT %s\n" % i
    for p in props: cfg += "PROPERTY %s\n" % p
    r = tlc("MC", cfg, files={"MC.tla": t}, timeout=timeout, heap=heap, workers=1 if edges else workers)
    if not r.ok: raise CheckError("TLC: model %s does not satisfy its properties or failed: %s" % (module, r.error()))
    return (Graph(r) if edges else None), r

def simulate(module, consts, num, depth, seed, events=None, invs=(), timeout=300, heap="3g", pre=""):
    """Random behaviours of the specification as lists of actions."""
    d, c = _consts(consts)
    ev = pre + (events or "Events"); some = lambda x: "(\\E e \\in %s : %sStep(e))" % (x, pre)
    # half of the steps choose an operation first, so that operations with few arguments are not drowned by the others; sets of
    # events that are drawn at random are drawn once, and again when nothing in them is possible
    nxt = some(ev)
    for i in range(3): nxt = "\\E s%d \\in {TLCEval(%s)} : IF ENABLED %s THEN %s ELSE %s" % (i, ev, some("s%d" % i), some("s%d" % i), nxt)
    nxt = ("\\E even \\in {RandomElement({TRUE, FALSE})} : \\E all \\in {TLCEval(%s)} : \\E ofop \\in {IF even THEN TLCEval(LET o == RandomElement({e.op : e \\in all}) IN {e \\in all : e.op = o}) ELSE all} : "
           "IF ENABLED %s THEN %s ELSE %s" % (ev, some("ofop"), some("ofop"), nxt))
    t = "---- MODULE MC ----\nEXTENDS %s, Json, Randomization\n%s\nVARIABLE hist\n" % (module, d)
    t += "SInit == Init /\\ hist = <<>>\nSNext == IF Len(hist) < %d THEN (%s) /\\ hist' = Append(hist, %s) ELSE Len(hist) = %d /\\ UNCHANGED vars /\\ hist' = Append(hist, hist[1])\n" % (depth, nxt, seen(pre), depth)
    t += "SSpec == SInit /\\ [][SNext]_<<vars, hist>>\n"
    t += 'Out == Len(hist) <= %d \\/ PrintT("@W" \\o ToJson(SubSeq(hist, 1, %d)))\n====\n' % (depth, depth)
    cfg = "SPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Out\n" + c
    for i in invs: cfg += "INVARIANT %s\n" % i
    r = tlc("MC", cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)], files={"MC.tla": t}, timeout=timeout, heap=heap)
    if not r.ok: raise CheckError("TLC simulate %s: %s" % (module, r.error()))
    ws = r.printed("@W")
    if not ws: raise CheckError("TLC simulate %s produced no behaviour: %s" % (module, r.out[-1500:]))
    return ws

TRACE = """---- MODULE MC ----
EXTENDS %s, Json
%s
VARIABLES l, bij
T == ndJsonDeserialize("trace.ndjson")
Kind(p, q) == IF p.k = "b" THEN (p.n = q.n) = (p.tok = q.tok) ELSE (p.tok = q.tok) => (p.n = q.n)
TInit == Init /\\ l = 1 /\\ bij = {}
TNext == /\\ l <= Len(T)
         /\\ LET r == T[l] IN
             /\\ Step(r.ev)
             /\\ \\A f \\in DOMAIN act'.obs : act'.obs[f] = r.obs[f]
             /\\ LET new == {[s |-> act'.nm[f].s, k |-> act'.nm[f].k, n |-> ToString(act'.nm[f].n), tok |-> ToString(r.nm[f])] : f \\in DOMAIN act'.nm}
                 IN /\\ bij' = bij \\cup new
                    /\\ \\A p \\in new : \\A q \\in bij' : p.s = q.s => Kind(p, q)
         /\\ l' = l + 1
TSpec == TInit /\\ [][TNext]_<<vars, l, bij>>
Reg == TLCSet(1, l)
Progress == PrintT("@P" \\o ToString(l))
Accepted == TLCGet("stats").diameter - 1 = Len(T)
====
"""
def accept(module, consts, trace, timeout=300, heap="2g", invs=()):
    """Is the recorded trace a behaviour of the specification?  Returns (accepted, events matched)."""
    d, c = _consts(consts)
    cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\nINVARIANT Progress\n" + c
    for i in invs: cfg += "INVARIANT %s\n" % i
    r = tlc("MC", cfg, files={"MC.tla": TRACE % (module, d), "trace.ndjson": "\n".join(json.dumps(x) for x in trace) + "\n"}, timeout=timeout, heap=heap)
    ps = [int(l[3:].strip('"')) for l in r.out.splitlines() if l.startswith('"@P')]
    top = max(ps) - 1 if ps else 0
    if r.ok: return True, len(trace)
    if ("Accepted" in r.out and ("ostcondition" in r.out)) or "Invariant" in r.out: return False, top
    raise CheckError("trace validation %s: %s" % (module, r.error()))

# ------------------------------------------------------------------------------- replay
class Names:
    """Abstract names <-> concrete tokens, per name space."""
    def __init__(self): self.f, self.b = {}, {}
    def check(self, nm, toks, space=None):
        bad = []
        for k, d in nm.items():
            if k not in toks: bad.append((k, "not observed")); continue
            n = json.dumps(d["n"], sort_keys=True); t = toks[k]; s = space(d["s"]) if space else d["s"]
            o = self.b.setdefault((s, t), n)
            if o != n: bad.append((k, "%s: token of %s seen again for %s" % (s, o, n)))
            if d["k"] == "b":
                p = self.f.setdefault((s, n), t)
                if p != t: bad.append((k, "%s: %s has two different values" % (s, n)))
        return bad

class Divergence:
    def __init__(self, step, a, got, diffs, cmds, walk):
        self.step, self.a, self.got, self.diffs, self.cmds, self.walk = step, a, got, diffs, cmds, walk
    def text(self):
        return "step %d %s: expected %s, observed %s (%s)" % (self.step, json.dumps(self.a["ev"]), json.dumps(self.a["obs"]), json.dumps(self.got), "; ".join(map(str, self.diffs)))

def play(adapter_cls, walk, seed, opts):
    """Turns one walk into driver commands.  Returns (commands, spans)."""
    ad = adapter_cls(random.Random(seed), dict(opts))
    cmds = ["reset"] + ad.setup(); spans = []
    for a in walk:
        c = ad.cmds(a["ev"]); spans.append((len(cmds), len(cmds) + len(c))); cmds += c
    return ad, cmds, spans

def judge(ad, walk, cmds, spans, res, crash):
    """Compares the observations of one walk with the specification's.  First divergence or None."""
    names = Names()
    for i, a in enumerate(walk):
        lo, hi = spans[i]
        if hi > len(res):
            return Divergence(i, a, {"crash": crash}, ["driver died: %s" % crash], cmds[:hi], walk[:i + 1])
        try: obs, toks = ad.observe(a["ev"], res[lo:hi])
        except Exception as ex:       # only a result the specification rules out can be impossible to interpret
            return Divergence(i, a, dict(res[hi - 1]) if hi > lo else {}, ["unexpected result (%s: %s): %s" % (type(ex).__name__, ex, json.dumps(res[lo:hi])[:300])], cmds[:hi], walk[:i + 1])
        diffs = ["%s: expected %s got %s" % (k, json.dumps(v), json.dumps(obs.get(k))) for k, v in a["obs"].items() if obs.get(k) != v]
        diffs += ["%s %s" % x for x in names.check(a.get("nm") or {}, toks, getattr(ad, "space", None))]
        if diffs: return Divergence(i, a, obs, diffs, cmds[:hi], walk[:i + 1])
    return None

def replay(rep, adapter_cls, walks, opts, focus, seed, label, batch=40, timeout=240, chunk_cmds=4000):
    """Replays walks of the specification in the real code and reports divergences that concern this property."""
    plays = [(w,) + play(adapter_cls, w, seed * 1000003 + i, opts) for i, w in enumerate(walks)]
    groups, cur, n = [], [], 0
    for p in plays:
        cur.append(p); n += len(p[2])
        if n >= chunk_cmds: groups.append(cur); cur, n = [], 0
    if cur: groups.append(cur)
    divs = []; hung = []
    def run_group(g):
        out = []
        while g and not hung:       # one behaviour that does not end is enough
            cmds = [c for p in g for c in p[2]]
            res, crash = run_sut(cmds, timeout)
            off = 0; nxt = []
            for j, p in enumerate(g):
                part = res[off:off + len(p[2])]
                if crash and len(part) < len(p[2]):
                    d = judge(p[1], p[0], p[2], p[3], part, crash)
                    if d is None: d = Divergence(-1, {"ev": {"op": "reset"}, "obs": {}}, {"crash": crash}, [crash], p[2], p[0])
                    out.append(d); nxt = g[j + 1:]
                    if "timeout" in crash: hung.append(1)
                    break
                d = judge(p[1], p[0], p[2], p[3], part, None)
                if d: out.append(d)
                off += len(p[2])
            g = nxt
        return out
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(run_group, groups): divs += r
    mine = [d for d in divs if focus(d)]
    rep.add(traces_validated_against_impl=len(walks), events_replayed=sum(len(w) for w in walks), other_divergences=len(divs) - len(mine))
    if os.environ.get("VP_VERBOSE"):
        for d in [d for d in divs if d not in mine][:3]: print("   other divergence: " + d.text()[:700])
    if os.environ.get("VP_DUMP"):
        with open(os.environ["VP_DUMP"], "a") as fd:
            for d in mine: fd.write(json.dumps({"label": label, "ev": d.a["ev"], "got": d.got, "text": d.text()}, default=str) + "\n")
    ops = {}
    for w in walks:
        for a in w: ops[a["ev"]["op"]] = ops.get(a["ev"]["op"], 0) + 1
    rep.add(**{"events_by_kind": {"%s.%s" % (label, k): v for k, v in ops.items()}})
    if walks: rep.sample({"scenario": label, "behaviour": walks[0][:6]})
    for d in mine[:5]:
        rep.violation("%s: %s" % (label, d.text()), {"scenario": label, "walk": d.walk, "commands": d.cmds, "observed": d.got, "diffs": d.diffs})
    return divs

def record(adapter_cls, events, opts, seed, timeout=600):
    """Runs a list of events chosen without the specification and returns the recorded trace."""
    ad = adapter_cls(random.Random(seed), dict(opts))
    cmds = ["reset"] + ad.setup(); spans = []
    for e in events:
        c = ad.cmds(e); spans.append((len(cmds), len(cmds) + len(c))); cmds += c
    res, crash = run_sut(cmds, timeout)
    tr = []
    for e, (lo, hi) in zip(events, spans):
        if hi > len(res): break
        try: obs, toks = ad.observe(e, res[lo:hi])
        except Exception: obs, toks = {"unexpected": True}, {}
        tr.append({"ev": e, "obs": obs, "nm": toks})
    return tr, crash, cmds
