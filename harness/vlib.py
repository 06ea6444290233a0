"""Runs the specifications against /repo's current tree: builds a snapshot of the package, runs TLC on the
design models, runs the drivers on the snapshot, validates what they recorded with TLC, and reports."""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
TLACP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class Broken(Exception):
    """the machinery failed: no answer"""


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "DISPLAY", "WAYLAND_DISPLAY", "JAVA_TOOL_OPTIONS")}
    e.update(
        HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
        LIBGL_ALWAYS_SOFTWARE="1", GALLIUM_DRIVER="llvmpipe", MESA_SHADER_CACHE_DISABLE="true",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
        MKL_CBWR="COMPATIBLE", ATEN_CPU_CAPABILITY="default", PYTHONWARNINGS="ignore")
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def atomic_dir(path, make):
    """directory `path` made by make(tmp) once; safe when several checks run at the same time"""
    if os.path.isdir(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(path), prefix=".tmp")
    try:
        make(tmp)
        os.rename(tmp, path)
    except OSError:
        if not os.path.isdir(path):
            raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return path


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:24]


def java_classes():
    src = os.path.join(VERIF, "java", "RatOverrides.java")

    def make(tmp):
        r = sh(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", tmp, src])
        if r.returncode:
            raise Broken("javac: " + r.stdout)

    return atomic_dir(os.path.join(CACHE, "classes-" + digest([src])), make)


def extension():
    """the compiled extension of /repo's current tree, built here from its sources"""
    files = [f for p in ("C++/**/*", "deodr/*.pyx", "deodr/*.pxd", "deodr/*.pxi", "deodr/*.h") for f in
             glob.glob(os.path.join(REPO, p), recursive=True) if os.path.isfile(f)]

    def make(tmp):
        w = os.path.join(tmp, "w")
        os.makedirs(w + "/deodr")
        shutil.copytree(REPO + "/C++", w + "/C++")
        for f in files:
            if os.path.dirname(f) == REPO + "/deodr":
                shutil.copy(f, w + "/deodr")
        q = "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"
        r = sh([PY, "-c", q], env=env())
        if r.returncode:
            raise Broken("python: " + r.stdout)
        inc, npinc, suffix = r.stdout.split()
        name = "differentiable_renderer_cython"
        r = sh([PY, "-m", "cython", "-3", "--cplus", f"deodr/{name}.pyx", "-o", f"deodr/{name}.cpp"], cwd=w, env=env())
        if r.returncode:
            raise Broken("cython: " + r.stdout)
        r = sh(["g++", "-O2", "-fwrapv", "-fPIC", "-shared", "-w", "-Ideodr", "-I.", f"-I{npinc}", f"-I{inc}",
                f"deodr/{name}.cpp", "-o", os.path.join(tmp, name + suffix)], cwd=w, env=env())
        if r.returncode:
            raise Broken("g++: " + r.stdout)
        shutil.rmtree(w)

    return atomic_dir(os.path.join(CACHE, "ext-" + digest(files)), make)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.hung = False
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.details, self.samples, self.violations, self.known = {}, [], [], []
        self.thorough = tier == "thorough"
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.findings = [k for k in json.load(f) if pid in k["properties"] and k["status"] == "open"]
        self.pkg = None

    # ------------------------------------------------------------------ code under test
    def package(self):
        if self.pkg is None:
            self.pkg = os.path.join(self.work, "pkg")
            os.makedirs(self.pkg)
            shutil.copytree(REPO + "/deodr", self.pkg + "/deodr", symlinks=False,
                            ignore=shutil.ignore_patterns("*.so", "__pycache__", "iterations", "*.cpp", "*.html"))
            for f in glob.glob(extension() + "/*.so"):
                shutil.copy(f, self.pkg + "/deodr")
        return self.pkg

    def driver(self, name, family, timeout=240, inp=None, **kw):
        """run drivers/<name>.py on the snapshot; returns the path of what it recorded, or None if the code
        under test crashed, hung or raised where it must not (then a violation is recorded)"""
        out = os.path.join(self.work, f"{name}-{family}.json")
        scratch = os.path.join(self.work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        e = env()
        e["PYTHONPATH"] = self.package() + ":" + os.path.join(VERIF, "drivers")
        e["TMPDIR"] = scratch
        cmd = [PY, os.path.join(VERIF, "drivers", name + ".py"), "--family", family, "--out", out, "--seed", str(self.seed), "--tier", self.tier]
        if inp:
            cmd += ["--input", inp]
        if self.hung:
            return None  # it hangs: there is a violation already
        p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", start_new_session=True)
        try:
            txt, _ = p.communicate(timeout=timeout * (4 if self.thorough else 1))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            txt, rc, self.hung = p.communicate()[0], "timeout", True
        if rc == 0 and os.path.exists(out):
            info = out + ".info"
            if os.path.exists(info):
                with open(info) as f:
                    self.details.setdefault("drivers", {})[f"{name}/{family}"] = json.load(f)
            return out
        attempt = {}
        if os.path.exists(out + ".attempt"):
            with open(out + ".attempt") as f:
                attempt = json.load(f)
        blame = rc == "timeout" or (isinstance(rc, int) and rc < 0) or (self.pkg + "/deodr/") in txt
        if not blame:
            raise Broken(f"driver {name}/{family} failed ({rc}):\n{txt[-3000:]}")
        self.violation(dict(clause=f"crash: {rc}", family=family, driver=name, output=txt[-3000:], attempt=attempt))
        return None

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, envs=None, timeout=600, workers=8, args=(), heap="6g"):
        """run TLC on spec/<module>.tla with the configuration text cfg"""
        d = tempfile.mkdtemp(dir=self.work, prefix=module)
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = env()
        e.update(envs or {})
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d,
               "-Dtlc2.overrides.TLCOverrides=deodr.RatOverrides:tlc2.overrides.TLCOverrides",
               f"-DTLA-Library={VERIF}/spec", "-cp", f"{java_classes()}:{TLACP}", "tlc2.TLC", "-workers", str(workers),
               "-metadir", d, "-noGenerateSpecTE", "-config", cfgf, *args, f"{VERIF}/spec/{module}.tla"]
        t0 = time.time()
        try:
            r = sh(cmd, env=e, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC: {module} did not finish in {timeout} s")
        out = r.stdout
        m = None
        for m in re.finditer(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out):
            pass
        gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:  # simulation: the states of the random walks
            m = re.search(r"The number of states generated: (\d+)", out)
            gen = int(m.group(1)) if m else 0
        shutil.rmtree(d, ignore_errors=True)
        lines = []
        for line in out.splitlines():
            m2 = re.match(r'^"(VERDICT|CASE|INFO)(.*)"$', line)
            if m2:
                lines.append((m2.group(1), json.loads(json.loads(line)[len(m2.group(1)):])))
        ok = "Model checking completed. No error has been found." in out or ("The number of states generated" in out and "Error:" not in out)
        return dict(out=out, generated=gen, distinct=dis, ok=ok and r.returncode == 0, lines=lines, wall=round(time.time() - t0, 1))

    def model(self, module, cfg, name=None, expect_states=1, envs=None, timeout=600, args=(), heap="6g"):
        """check a design model: its invariants and properties must hold (an error is one of the specification)"""
        r = self.tlc(module, cfg, envs, timeout, args=args, heap=heap)
        if not r["ok"]:
            raise Broken(f"model {module}: TLC found an error in the specification\n{strip(r['out'])}")
        if max(r["distinct"], r["generated"]) < expect_states:
            raise Broken(f"model {module}: only {r['distinct']} states: vacuous")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.details.setdefault("models", {})[name or module] = dict(
            distinct_states=r["distinct"], states_generated=r["generated"], wall_s=r["wall"])
        return r

    def cases(self, module, cfg, name=None, limit=None, keep=None, **kw):
        """the behaviours a model prints (CASE lines), in a file for a driver; limit: keep a sample"""
        r = self.model(module, cfg, name, **kw)
        cases = [v for k, v in r["lines"] if k == "CASE"]
        cases = [json.loads(x) for x in sorted({json.dumps(c, sort_keys=True) for c in cases})]
        if not cases:
            raise Broken(f"model {module}: it printed no behaviour")
        total = len(cases)
        if keep:
            cases = [x for x in cases if keep(x)]
            total = len(cases)
        if limit and total > limit:
            import random
            cases = random.Random(self.seed).sample(cases, limit)
        self.details["models"][name or module]["behaviours"] = total
        self.details["models"][name or module]["replayed"] = len(cases)
        path = os.path.join(self.work, (name or module) + ".cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        return path

    def validate(self, spec, tracefile, name, cfg=None, timeout=600, need=None, envs=None):
        """validate recorded traces: every trace gets one verdict"""
        if tracefile is None:
            return []
        with open(tracefile) as f:
            traces = json.load(f)
        if isinstance(traces, dict):
            traces = traces["traces"]
        n = len(traces)
        if n == 0:
            raise Broken(f"{name}: no traces")
        cfg = cfg or "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        r = self.tlc(spec, cfg, dict(envs or {}, TRACE_FILE=tracefile), timeout)
        verdicts = [v for k, v in r["lines"] if k == "VERDICT"]
        seen = {v["t"] for v in verdicts}
        if not r["ok"] or len(seen) != n:
            raise Broken(f"{name}: TLC gave {len(seen)} verdicts for {n} traces\n{strip(r['out'])}")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.traces += n
        stats = {}
        for v in verdicts:
            tr = traces[v["t"] - 1]
            for k, x in v.items():
                if k not in ("t", "bad") and isinstance(x, (int, bool)):
                    stats[k] = stats.get(k, 0) + int(x)
            for b in v["bad"]:
                c = b["clause"]
                if c.startswith("known:") and any(k["id"] == c[6:] for k in self.findings):
                    self.known.append(c[6:])
                else:
                    self.violation(dict(clause=c, family=name, spec=spec, verdict=b, trace=tr), quiet=True)
        self.details.setdefault("traces", {})[name] = dict(
            traces=n, distinct_states=r["distinct"], wall_s=r["wall"], totals=stats,
            rejected=sum(1 for v in verdicts if v["bad"]))
        for k, lo in (need or {}).items():
            if stats.get(k, 0) < lo and not self.violations:
                raise Broken(f"{name}: vacuous, {k} = {stats.get(k, 0)} < {lo}")
        tr = dict(traces[self.seed % n])
        self.samples.append(dict(family=name, case=shorten(tr)))
        return verdicts

    # ------------------------------------------------------------------ verdict
    def violation(self, v, quiet=False):
        self.violations.append(v)
        if not quiet or len(self.violations) <= 5:
            b = v.get("verdict", {})
            print(f"  {self.pid}: {v['clause']} in {v.get('family')}: {json.dumps(b)[:400]}", flush=True)
            if "output" in v:
                print(v["output"][-1200:], flush=True)

    def finish(self, technique_note="", assumptions=()):
        replay = None
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, self.pid + ".json")
            with open(replay, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                          samples=self.samples[:4], details=self.details),
            assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(set(self.known)):
            what = next(x["what"] for x in self.findings if x["id"] == k)
            print(f"KNOWN-FINDING: property={self.pid} {k}: {what} ({self.known.count(k)} cases)")
        print(f"{self.pid}: {self.states} states, {self.transitions} transitions, {self.traces} executions of the code "
              f"validated, {len(self.violations)} violations, {time.time() - self.t0:.1f} s")
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def strip(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-4000:]


def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x[:6]] + (["..."] if len(x) > 6 else [])
    if isinstance(x, str) and len(x) > 60:
        return x[:60] + "..."
    return x


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py <property> [quick|thorough]; properties: " + " ".join(checks))
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = Check(pid, tier, seed)
    try:
        assumptions = checks[pid](c) or ()
        return c.finish(assumptions=assumptions)
    except Broken as e:
        if c.violations:  # something was found before the machinery stopped
            return c.finish()
        print(f"ERROR {pid}: {e}")
        return 2
    finally:
        c.close()
