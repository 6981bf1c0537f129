"""Shared machinery of the checks: scratch space, TLC, compilers, evidence."""
import atexit, json, math, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "src/include")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    """The check itself failed: no verdict."""


class NoBuild(CheckError):
    """No configuration of a recorder builds."""


def gist(err):
    """the part of a compiler's output with the first error"""
    i = max(0, err.find("error:") - 500)
    return err[i:i + 1500]


class Violation(Exception):
    def __init__(self, what, files=None):
        super().__init__(what)
        self.what = what
        self.files = files or {}


class Result:
    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout


def run(cmd, env=None, timeout=600, cwd=None, mem_gb=None):
    """Run a command in its own process group; kill the group on timeout."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return Result(p.returncode, out.decode("utf-8", "replace"), False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return Result(-9, out.decode("utf-8", "replace"), True)


class Ctx:
    def __init__(self, prop, title):
        self.prop, self.title = prop, title
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.notes, self.skipped = [], [], [], []
        self.counts = {}
        self.violations = []
        self.n = 0
        self.jc = None
        self.accepted = set()

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, prefix):
        self.n += 1
        return self.path("%s%d" % (prefix, self.n))

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def java(self):
        if self.jc is None:
            d = self.path("jc")
            os.makedirs(d)
            r = run(["javac", "-cp", JAR, "-d", d, os.path.join(VERIF, "java/Rat.java")], timeout=120)
            if r.rc != 0:
                raise CheckError("javac failed: " + r.out[-500:])
            self.jc = d
        return self.jc

    def tlc(self, spec, cfg=None, env=None, workers=1, timeout=600, args=(), heap="3g"):
        meta = self.fresh("meta")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m",
               "-Xmx" + heap, "-cp", JAR + ":" + self.java(), "tlc2.TLC", "-metadir", meta,
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or spec + ".cfg"] + list(args) + [spec + ".tla"]
        r = run(cmd, env=env, timeout=timeout, cwd=SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def stats(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            g, d = map(int, m[-1])
            return d, g
        return 0, 0

    def model(self, spec, cfg=None, env=None, workers=4, timeout=800, args=(), name=None, expect=None):
        """Model-check a specification.  expect: None = must hold; a regular
        expression = must fail that way (non-vacuity)."""
        r = self.tlc(spec, cfg, env, workers, timeout, args)
        d, g = self.stats(r.out)
        label = name or (cfg or spec)
        if expect is None:
            if r.rc != 0 or "No error has been found" not in r.out:
                raise CheckError("model %s: %s" % (label, r.out[-1500:]))
        else:
            if r.rc == 0 or not re.search(expect, r.out):
                raise CheckError("model %s was expected to fail with %s: %s" % (label, expect, r.out[-1500:]))
        self.states += d
        self.transitions += g
        self.models.append({"model": label, "states": d, "transitions": g,
                            "result": "holds" if expect is None else "fails as it must"})
        return r

    # ---------------------------------------------------------- verdicts
    def violation(self, what, files):
        """files: name -> text, kept for replay"""
        d = os.path.join(VERIF, "evidence", "replay-" + self.prop)
        if not self.violations:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        k = len(self.violations)
        if k < 5:
            p = os.path.join(d, "%d" % k)
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, "what.txt"), "w") as f:
                f.write(what + "\n")
            for n, t in files.items():
                with open(os.path.join(p, n), "w") as f:
                    f.write(t)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            print("  " + what[:600].replace("\n", "\n  "), flush=True)
        self.violations.append(what)

    def evidence(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "models": self.models, "counts": self.counts, "samples": self.samples[:6]}
        if self.skipped:
            cov["skipped"] = self.skipped
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    # ---------------------------------------------------------- compiling
    def compile_all(self, jobs, timeout=400):
        """jobs: list of (name, argv); returns {name: Result}"""
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda j: run(j[1], timeout=timeout), jobs))
        return {j[0]: r for j, r in zip(jobs, rs)}


def hexf(s):
    """numeral of the specification -> hexadecimal floating point for a script"""
    if isinstance(s, int):
        return float(s).hex()
    if s.startswith("next"):
        return math.nextafter(float.fromhex(hexf(s[6:])), math.inf if s[4] == "+" else -math.inf).hex()
    if s == "nan":
        return s
    if ":" in s:
        m, e = s.split(":")
        f = Fraction(int(m)) * (Fraction(2) ** int(e))
    else:
        f = Fraction(s)
    return float(f).hex()


def main(prop, title, body):
    c = Ctx(prop, title)
    try:
        try:
            body(c)
        except NoBuild as e:
            # The recorders only make calls a user may make.  If the compiler works and
            # rejects them, the library no longer offers what the property is about.
            t = c.path("alone.cpp")
            with open(t, "w") as f:
                f.write("#include <vector>\nint main() { return int(std::vector<int>(1).size()) - 1; }\n")
            r = run(["g++", "-std=c++17", "-o", c.path("alone"), t], timeout=120)
            if r.rc != 0 or "error:" not in str(e) or re.search("Killed|llocate memory|No space|internal compiler", str(e)):
                raise
            c.violation("the calls the property is about do not compile: " + str(e), {"message.txt": str(e)})
    except CheckError as e:
        c.log("CHECK ERROR:", e)
        c.notes.append("check error: " + str(e)[:500])
        c.evidence()
        sys.exit(1 if c.violations else 2)
    except Exception:
        import traceback
        traceback.print_exc()
        c.evidence()
        sys.exit(1 if c.violations else 2)
    c.evidence()
    c.log("%s %s: %d violations, %d traces, %d events, %d states" %
          (prop, c.tier, len(c.violations), c.traces, c.events, c.states))
    sys.exit(1 if c.violations else 0)
