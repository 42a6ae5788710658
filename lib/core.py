"""Shared machinery: driver runner, TLC runner, state-graph tours, reporting."""
import threading, json, os, re, subprocess, sys, tempfile, time, random, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
import build as _build
VERIF = _build.VERIF
SPEC = VERIF + "/spec"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = 8

class Crash(Exception):
    pass
class CheckError(Exception):
    """The check itself failed (never reported as a violation)."""

_exe = None
_exe_lock = threading.Lock()
def exe():
    global _exe
    with _exe_lock:
        if _exe is None: _exe = _build.build()
    return _exe

def scratch():
    base = os.environ.get("VP_SCRATCH") or VERIF + "/.scratch"
    os.makedirs(base, exist_ok=True)
    return base

def run_sut(cmds, timeout=600, env=None, cwd=None):
    """Runs a list of command strings.  Returns (results, crash) - crash is None or a description;
    when it crashed, len(results) is the index of the command that did not return."""
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0")
    e["VP_FS"] = scratch()
    if env: e.update(env)
    try:
        p = subprocess.run([exe()], input="\n".join(cmds) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        if isinstance(out, bytes): out = out.decode()
        res = [json.loads(l) for l in out.splitlines() if l.endswith("}")]
        return res, "timeout after %ds" % timeout
    res = []
    for l in p.stdout.splitlines():
        try: res.append(json.loads(l))
        except ValueError: break
    if p.returncode == 3 and re.search("unknown command|too few arguments", p.stderr): raise CheckError("driver: " + p.stderr[-2000:])
    if p.returncode == 0:
        if len(res) != len(cmds): raise CheckError("driver answered %d of %d commands" % (len(res), len(cmds)))
        return res, None
    m = re.search(r"(ERROR: AddressSanitizer: .*|Aborted.*|terminate called.*)", p.stderr)
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", p.stderr)[:6]
    return res, "exit %d: %s %s" % (p.returncode, m.group(1) if m else p.stderr[-300:], " < ".join(fr))

def run_many(batches, timeout=600, env=None):
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(lambda b: run_sut(b, timeout, env), batches))

# ------------------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        ms = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(ms[-1][0]), int(ms[-1][1])) if ms else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0
    def printed(self, tag):
        r = []
        pre = '"' + tag
        for l in self.out.splitlines():
            if l.startswith(pre):
                try: s = json.loads(l)
                except ValueError: continue
                r.append(json.loads(s[len(tag):]))
        return r
    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-1500:]

def tlc(module, cfg, args=(), files=None, timeout=800, workers=1, heap="3g", env=None):
    """Runs TLC on spec/<module>.tla with the given cfg text in a private directory."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(SPEC + "/" + f, d)
        for n, t in (files or {}).items(): open(d + "/" + n, "w").write(t)
        if os.path.exists(SPEC + "/" + cfg): shutil.copy(SPEC + "/" + cfg, d + "/MC.cfg")
        else: open(d + "/MC.cfg", "w").write(cfg)
        cp = TLAJAR
        jars = [os.path.join(os.path.dirname(TLAJAR), j) for j in os.listdir(os.path.dirname(TLAJAR)) if j.endswith(".jar")]
        cp = ":".join(jars)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-config", "MC.cfg", "-metadir", d + "/md", "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None)
        if env: e.update(env)
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired as t:
            raise CheckError("TLC timeout on %s" % module)
        return Tlc(p.stdout, p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------------------------ graphs
class Graph:
    """State graph printed by TLC as '@E' records {s, a, t}; '@I' records are initial states."""
    def __init__(self, t):
        self.ids = {}
        self.edges = []           # (src, action, dst)
        self.out = {}
        self.init = [self.sid(x) for x in t.printed("@I")]
        seen = set()
        for e in t.printed("@E"):
            s, d = self.sid(e["s"]), self.sid(e["t"])
            k = (s, json.dumps(e["a"], sort_keys=True), d)
            if k in seen: continue
            seen.add(k)
            self.out.setdefault(s, []).append(len(self.edges))
            self.edges.append((s, e["a"], d))
    def sid(self, st):
        k = json.dumps(st, sort_keys=True)
        return self.ids.setdefault(k, len(self.ids))
    def probe(self, v, rnd):
        """Questions whose answers leave the state as it is, asked where it has just been reached: the code's state
        may differ from the model's although the transition's own answer was right."""
        if v not in self.asks:
            by = {}
            for e in self.out.get(v, ()):
                if self.edges[e][2] == v: by.setdefault(self.edges[e][1]["ev"]["op"], []).append(e)
            yes = {o: [e for e in es if self.edges[e][1]["obs"].get("r") is True] for o, es in by.items()}
            self.asks[v] = (list({o: es for o, es in yes.items() if es}.values()), list(by.values()))
        yes, every = self.asks[v]
        if not every: return []
        return [rnd.choice(rnd.choice(yes if yes and rnd.random() < .8 else every))]
    def tour(self, rnd, maxlen=60, limit=None, weight=None):
        """Walks from an initial state that together take every edge (or `limit` walks); every step into another
        state is followed by a question."""
        import collections
        self.asks = {}
        # BFS tree from the initial states
        par = {}; dq = collections.deque()
        for i in self.init: par[i] = None; dq.append(i)
        while dq:
            s = dq.popleft()
            for e in self.out.get(s, ()):
                d = self.edges[e][2]
                if d not in par: par[d] = e; dq.append(d)
        todo = set(i for i, e in enumerate(self.edges) if e[0] in par)
        order = sorted(todo); rnd.shuffle(order)
        walks = []
        for e0 in order:
            if e0 not in todo: continue
            pre = []; s = self.edges[e0][0]
            while par[s] is not None: pre.append(par[s]); s = self.edges[par[s]][0]
            w = pre[::-1] + [e0]
            todo.discard(e0)
            for e in pre: todo.discard(e)
            cur = self.edges[e0][2]
            if cur != self.edges[e0][0]:
                for q in self.probe(cur, rnd): w.append(q); todo.discard(q)
            while len(w) < maxlen:
                nx = [e for e in self.out.get(cur, ()) if e in todo]
                if not nx:
                    # one step of lookahead: an edge whose target still has work
                    nx2 = [e for e in self.out.get(cur, ()) if any(x in todo for x in self.out.get(self.edges[e][2], ()))]
                    if not nx2: break
                    e = rnd.choice(nx2)
                else:
                    e = rnd.choice(nx)
                new = e in todo and self.edges[e][2] != cur
                w.append(e); todo.discard(e); cur = self.edges[e][2]
                if new:
                    for q in self.probe(cur, rnd): w.append(q); todo.discard(q)
            walks.append([self.edges[e][1] for e in w])
            if limit and len(walks) >= limit: break
        self.uncovered = len(todo)
        return walks

# ------------------------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.assumptions = []
        self.known = []
    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, dict):
                d = self.cov.setdefault(k, {})
                for kk, vv in v.items(): d[kk] = d.get(kk, 0) + vv if isinstance(vv, int) else vv
            else: self.cov[k] = v
    def sample(self, x):
        if len(self.cov["samples"]) < 5: self.cov["samples"].append(x)
    def violation(self, what, detail):
        n = len(self.viol)
        d = VERIF + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%d.json" % (d, self.prop, n)
        json.dump({"property": self.prop, "what": what, "detail": detail}, open(path, "w"), indent=1, default=str)
        self.viol.append({"what": what, "replay": path})
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(self.viol), "violation_list": self.viol, "known_findings": self.known}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.prop), "w"), indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.viol[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
            print("  " + v["what"][:600])
        print("%s %s: %s in %.1fs, %s" % (self.prop, self.tier, "VIOLATED" if self.viol else "held", ev["wall_s"],
              {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.viol else 0
