"""Builds the conformance driver from /repo's current working tree (library sources + /verif/harness)."""
import fcntl, hashlib, os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = REPO + "/src/wickrcrypto"
BUILD = os.environ.get("VP_BUILD", VERIF + "/.build")
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build()

def _build():
    """Returns the path of the driver.  Objects are cached by the content of everything they can include."""
    lib_c = sorted(glob.glob(SRC + "/src/**/*.c", recursive=True)) + sorted(glob.glob(REPO + "/src/protobuf/gen/*.c"))
    hdr = glob.glob(SRC + "/include/**/*.h", recursive=True) + glob.glob(SRC + "/src/**/*.h", recursive=True) + glob.glob(REPO + "/src/protobuf/gen/*.h")
    har = sorted(glob.glob(VERIF + "/harness/*.cpp")) + [VERIF + "/harness/shim/shim.c"]
    hhd = glob.glob(VERIF + "/harness/*.hpp") + glob.glob(VERIF + "/harness/shim/*.h")
    inc = ["-I" + SRC + "/include/wickrcrypto", "-I" + SRC + "/include", "-I" + REPO + "/src/protobuf/gen", "-I" + VERIF + "/harness/shim", "-I" + VERIF + "/harness"]
    cflags = ["-O1", "-g1", "-w", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE"] + SAN
    hkey = _digest(hdr + hhd, " ".join(cflags))
    objdir = BUILD + "/obj"
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    for f in lib_c + har:
        k = _digest([f], hkey)
        o = "%s/%s-%s.o" % (objdir, os.path.basename(f), k)
        objs.append(o)
        if not os.path.exists(o):
            cc = ["g++", "-std=c++17"] if f.endswith(".cpp") else ["gcc", "-std=gnu11"]
            flt = ["-include", VERIF + "/harness/shim/faults.h"] if os.path.basename(f) in ("openssl_suite.c", "kdf.c") else []
            jobs.append((cc + cflags + inc + flt + ["-c", f, "-o"], o))
    def run(j):
        tmp = j[1] + ".%d.tmp" % os.getpid()
        r = subprocess.run(j[0] + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: os.replace(tmp, j[1])
        return r
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, jobs):
            if r.returncode:
                sys.stderr.write(r.stdout[-1500:])
                raise SystemExit("BUILD FAILED: " + " ".join(r.args[-3:]))
    exe = BUILD + "/sut-" + _digest(objs)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + SAN + objs + ["-o", tmp, "-lcrypto", "-lprotobuf-c", "-lcrypt", "-lpthread", "-Wl,--wrap=fopen,--wrap=rename"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-1500:]); raise SystemExit("LINK FAILED")
        os.replace(tmp, exe)
        # keep the cache small: drop objects and drivers not used by this build
        keep = set(objs) | {exe}
        for f in glob.glob(objdir + "/*.o") + glob.glob(BUILD + "/sut-*"):
            if f not in keep and not f.endswith(".tmp"):
                try: os.unlink(f)
                except OSError: pass
    return exe
if __name__ == "__main__":
    print(build(True))
