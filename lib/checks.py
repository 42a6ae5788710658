"""Scenario building blocks and the registry of property checks."""
import sys, os, importlib
from mbt import *
CHECKS = {}
LEVEL = {}
def check(pid, level="model_checking"):
    def d(f): CHECKS[pid] = f; LEVEL[pid] = level; return f
    return d

class Run:
    def __init__(self, rep, tier, seed):
        self.rep, self.tier, self.seed = rep, tier, seed
        self.quick = tier == "quick"
        self.n = 0
    def lap(self, label, t0):
        self.rep.cov.setdefault("scenario_seconds", {})[label] = round(time.time() - t0, 1)
        if os.environ.get("VP_VERBOSE"): print("   %-40s %.1fs" % (label, time.time() - t0), flush=True)
    def finding(self, fid, what, detail):
        """A defect that is listed in KNOWN_FINDINGS.txt is announced, any other is a violation."""
        for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
            if l.startswith("finding: property=%s id=%s " % (self.rep.prop, fid)):
                if what not in self.rep.known: self.rep.known.append(what)
                return
        self.rep.violation(what, detail)
    def pick(self, q, t): return q if self.quick else t
    def graph(self, label, module, adapter, consts, opts, focus, invs=(), props=(), maxlen=60, limit=None, timeout=700, repeat=1, maxlevel=None, heap="6g", pre=""):
        """Exhaustive state graph of a small instance; every transition replayed in the real code."""
        t0 = time.time()
        self.n += 1
        g, r = explore(module, consts, invs, props, timeout=timeout, maxlevel=maxlevel, heap=heap, pre=pre)
        self.rep.add(states=r.distinct, transitions=r.generated)
        for i in range(repeat):
            ws = g.tour(random.Random(self.seed * 31 + i), maxlen, limit)
            self.rep.add(transitions_not_replayed=g.uncovered if i == 0 else 0)
            replay(self.rep, adapter, ws, opts, focus, self.seed * 7 + self.n * 101 + i, label)
            if self.rep.viol: break
        self.lap(label, t0)
    def sim(self, label, module, adapter, consts, opts, focus, num, depth, invs=(), events="SimEvents", timeout=300, pre=""):
        """Random long behaviours of a larger instance, replayed in the real code."""
        t0 = time.time()
        self.n += 1
        ws = simulate(module, consts, num, depth, self.seed + self.n, events=events, invs=invs, timeout=timeout, pre=pre)
        self.rep.add(transitions=sum(len(w) for w in ws))
        replay(self.rep, adapter, ws, opts, focus, self.seed * 7 + self.n * 101, label)
        self.lap(label, t0)
    def trace(self, label, module, adapter, consts, opts, focus, gen, num):
        """Histories driven by a generator that knows nothing of the specification, recorded from the real code;
        TLC decides whether each is a behaviour of the specification."""
        t0 = time.time()
        self.n += 1
        def one(i):
            evs = gen(random.Random(self.seed * 977 + self.n * 13 + i))
            tr, crash, cmds = record(adapter, evs, opts, self.seed * 53 + i)
            if crash: return tr, crash, cmds, False, len(tr), evs
            ok, m = accept(module, consts, tr)
            return tr, None, cmds, ok, m, evs
        with ThreadPoolExecutor(4) as ex: rs = list(ex.map(one, range(num)))
        self.rep.add(traces_validated_against_impl=len(rs), recorded_events=sum(len(r[0]) for r in rs))
        for tr, crash, cmds, ok, m, evs in rs:
            if ok: continue
            if crash: d = Divergence(m, {"ev": evs[m], "obs": {}}, {"crash": crash}, ["driver died: " + crash], cmds, tr)
            elif m < len(tr): d = Divergence(m, {"ev": tr[m]["ev"], "obs": {}}, dict(tr[m]["obs"], nm=tr[m]["nm"]), ["TLC rejects this event: no behaviour of the specification continues with it"], cmds, tr[:m + 1])
            else: continue
            try: mine = focus(d)
            except (KeyError, TypeError, AttributeError): mine = True       # the result is not even of the expected form
            if mine: self.rep.violation("%s (recorded): %s" % (label, d.text()), {"scenario": label, "trace": d.walk, "commands": cmds, "diffs": d.diffs})
            else: self.rep.add(other_divergences=1)
        self.lap(label, t0)

def run(pid, tier, seed):
    rep = Report(pid, tier, seed, LEVEL.get(pid, "model_checking"))
    try: CHECKS[pid](Run(rep, tier, seed))
    except CheckError as e:          # a broken library may make a scenario impossible to carry on with
        if not rep.viol: raise
        print("after the violation: %s" % e)
    return rep.finish()
