"""Loads the resolved program of /repo/src through the extractor."""
import fcntl
import glob, hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SEMBA_REPO", "/repo")
ARGS = ["-std=c++14", '-DOPENSEMBA_VERSION="0.14"', "-w", "-ferror-limit=0"]


class AnalysisError(Exception):
    pass


def extractor():
    h = hashlib.sha256(open(os.path.join(HERE, "extract.cpp"), "rb").read()).hexdigest()[:16]
    p = os.path.join(HERE, "bin", "extract-" + h)
    if not os.path.exists(p):
        subprocess.check_call(["bash", os.path.join(HERE, "build.sh")])
    return p


def units():
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    drv = sorted(glob.glob(HERE + "/driver/*.cpp"))
    return src, drv


class Prog:
    def __init__(self):
        self.fns = {}      # usr -> fn
        self.byname = {}   # printed name -> [fn]
        self.recs = {}     # record type name -> rec
        self.enums = {}
        self.vars = {}
        self.tus = []
        self.failed = []

    def add(self, o):
        k = o["kind"]
        if k == "fn":
            u = o["u"]
            if u in self.fns:
                return
            self.fns[u] = o
            self.byname.setdefault(o["n"], []).append(o)
        elif k == "rec":
            if o["n"] not in self.recs or (self.recs[o["n"]].get("dep") and not o.get("dep")):
                self.recs[o["n"]] = o
        elif k == "enum":
            self.enums[o["n"]] = o
        elif k == "var":
            self.vars.setdefault(o["n"], o)
        elif k == "tu":
            self.tus.append(o["file"])
            if not o["ok"]:
                self.failed.append(o["file"])

    def finish(self):
        self.subs = {}
        for r in self.recs.values():
            for b in r["bases"]:
                self.subs.setdefault(b["n"], []).append(r["n"])
        self.overriders = {}
        for r in self.recs.values():
            for m in r["methods"]:
                for o in m.get("ov", ()):
                    self.overriders.setdefault(o, []).append(m["u"])

    def bases(self, name, out=None):
        """all transitive bases (names)"""
        out = [] if out is None else out
        r = self.recs.get(name)
        if r:
            for b in r["bases"]:
                if b["n"] not in out:
                    out.append(b["n"])
                    self.bases(b["n"], out)
        return out

    def derived(self, name, out=None):
        out = [] if out is None else out
        for s in self.subs.get(name, ()):
            if s not in out:
                out.append(s)
                self.derived(s, out)
        return out

    def rel(self, f):
        p = f["file"]
        return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def _key(src, drv):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*.*", recursive=True)) + drv + [os.path.join(HERE, "extract.cpp"), os.path.abspath(__file__)]
    for f in files:
        if f.endswith((".cpp", ".h", ".hpp", ".py")):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:24]


def load(verbose=False):
    src, drv = units()
    if len(src) < 80:
        raise AnalysisError("only %d translation units under %s/src" % (len(src), REPO))
    key = _key(src, drv)
    cdir = os.path.join(HERE, ".cache")
    os.makedirs(cdir, exist_ok=True)
    cf = os.path.join(cdir, key + ".pickle")
    if os.path.exists(cf):
        try:
            return pickle.load(open(cf, "rb"))
        except Exception:
            pass
    # checks that start together share one extraction
    lock = open(os.path.join(cdir, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(cf):
        try:
            return pickle.load(open(cf, "rb"))
        except Exception:
            pass
    ex = extractor()
    tmp = tempfile.mkdtemp(prefix="semba-extract-")
    try:
        maps = []
        # clang (unlike g++) rejects the ambiguous lookup of "OutputRequest::Base" inside the class template
        # OutputRequest::OutputRequest; the headers are re-read with that one name fully qualified.
        for f in glob.glob(REPO + "/src/core/outputRequest/*.h*"):
            s = open(f, errors="replace").read()
            n = re.sub(r"(?<![:\w])OutputRequest::Base\b", "::SEMBA::OutputRequest::Base", s)
            if n != s:
                m = os.path.join(tmp, os.path.basename(f))
                open(m, "w").write(n)
                maps.append("MAP=%s=%s" % (f, m))
        inc = ["-I" + REPO + d for d in ("/external", "/external/json", "/external/gidpost", "/src", "/src/core")] + ["-I" + HERE + "/driver"]
        allu = src + drv
        sizes = {f: (200 if "Parser" in f or "/driver/" in f or "Exporter" in f or "mesh" in f else 100) for f in allu}
        n = min(8, os.cpu_count() or 4)
        buckets = [[] for _ in range(n)]
        load_ = [0] * n
        for f in sorted(allu, key=lambda f: -sizes[f]):
            i = load_.index(min(load_))
            buckets[i].append(f)
            load_[i] += sizes[f]

        def run(i):
            out = os.path.join(tmp, "o%d.json" % i)
            p = subprocess.run([ex, out, REPO + "/src," + HERE + "/driver"] + buckets[i] + maps + ["--"] + ARGS + inc,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return out, p
        with ThreadPoolExecutor(n) as tp:
            res = list(tp.map(run, range(n)))
        P = Prog()
        errs = ""
        for out, p in res:
            if p.returncode not in (0, 1):
                raise AnalysisError("extractor failed (%s): %s" % (p.returncode, p.stdout[-6000:]))
            for ln in open(out):
                P.add(json.loads(ln))
            if p.returncode:
                errs += p.stdout
        if P.failed or len(P.tus) != len(allu):
            raise AnalysisError("translation units not analysed: %s\n%s" % (P.failed or "?", errs[-4000:]))
        P.finish()
        t = cf + ".%d" % os.getpid()
        pickle.dump(P, open(t, "wb"), protocol=4)
        os.replace(t, cf)
        for o in sorted(glob.glob(cdir + "/*.pickle"), key=os.path.getmtime)[:-6]:
            os.unlink(o)
        return P
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    try:
        P = load(True)
    except AnalysisError as e:
        print(e)
        sys.exit(3)
    print(len(P.tus), "units", len(P.fns), "functions", len(P.recs), "records", len(P.enums), "enums", "%.1fs" % (time.time() - t))
