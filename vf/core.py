"""Shared machinery: building the library and drivers from /repo, running TLC, evidence, verdicts."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = os.cpu_count() or 4
CXX = "g++"
FLAVORS = {
    "san": ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-w"],
    "rel": ["-std=c++17", "-O2", "-w"],
    "deb": ["-std=c++17", "-O0", "-w"],
}


class InfraError(Exception):
    """Something other than the code under test went wrong."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def repo_headers():
    return glob.glob(REPO + "/include/lsst/sphgeom/**/*.h", recursive=True) + glob.glob(REPO + "/src/*.h")


def _compile_many(jobs):
    """jobs: list of (cmd, label). Runs them in parallel; raises on failure."""
    def one(j):
        r = _run(j[0])
        return j[1], r.returncode, r.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for label, rc, out in ex.map(one, jobs):
            if rc != 0:
                raise InfraError(f"compiling {label} failed:\n{out[-4000:]}")


def _prune(prefix, keep):
    """Keep only the newest few build directories of a kind."""
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime, reverse=True)
    for d in ds[6:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def driver(name, flavor="san", extra_flags=(), libs=(), lib=True):
    """Build harness/<name>.cc with every library source of /repo; returns the executable path."""
    flags = FLAVORS[flavor] + list(extra_flags)
    srcs = sorted(glob.glob(REPO + "/src/*.cc"))
    if not srcs:
        raise InfraError("no sources in " + REPO)
    hdrs = repo_headers()
    if not lib:
        hdrs, srcs = hdrs + [REPO + "/src/CMakeLists.txt"], []  # header-only drivers
    inc = ["-I" + REPO + "/include", "-I" + HARN]
    libdir = os.path.join(BUILD, f"lib{flavor}-" + _hash(srcs + hdrs, " ".join(flags)))
    os.makedirs(libdir, exist_ok=True)
    main = os.path.join(HARN, name + ".cc")
    hh = glob.glob(HARN + "/*.h")
    exe = os.path.join(libdir, f"{name}-" + _hash([main] + hh, " ".join(flags)))
    if os.path.exists(exe):
        os.utime(libdir)
        return exe
    jobs, objs = [], []
    tmp = f".{os.getpid()}.tmp"
    for s in srcs:
        o = os.path.join(libdir, os.path.basename(s) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX, *flags, *inc, "-c", s, "-o", o + tmp], s))
    mo = exe + tmp + ".o"
    jobs.insert(0, ([CXX, *flags, *inc, "-c", main, "-o", mo], main))
    _compile_many(jobs)
    for o in objs:
        if os.path.exists(o + tmp):
            os.replace(o + tmp, o)
    r = _run([CXX, *flags, mo, *objs, "-o", exe + tmp, *libs])
    if r.returncode:
        raise InfraError("link failed:\n" + r.stdout[-4000:])
    os.replace(exe + tmp, exe)
    os.remove(mo)
    _prune("lib" + flavor, libdir)
    return exe


PYTHON = "/opt/vp/venv/bin/python"


def pymodule():
    """Build the Python package lsst.sphgeom from /repo below BUILD; returns the directory to put on PYTHONPATH."""
    pydir = REPO + "/python/lsst/sphgeom"
    cc, py = sorted(glob.glob(pydir + "/*.cc")), sorted(glob.glob(pydir + "/*.py"))
    srcs = sorted(glob.glob(REPO + "/src/*.cc"))
    hdrs = repo_headers() + glob.glob(pydir + "/*.h")
    root = os.path.join(BUILD, "py-" + _hash(cc + py + srcs + hdrs))
    if os.path.exists(root + "/done"):
        os.utime(root)
        return root
    pkg = root + "/lsst/sphgeom"
    obj = os.path.join(BUILD, "pyobj")  # objects by content, so that an edit recompiles what it touches
    os.makedirs(pkg, exist_ok=True)
    os.makedirs(obj, exist_ok=True)
    inc = _run([PYTHON, "-m", "pybind11", "--includes"]).stdout.split()
    flags = ["-std=c++17", "-O0", "-fPIC", "-fvisibility=hidden", "-w", "-I" + REPO + "/include", *inc]
    objs, jobs = [], []
    for f in cc + srcs:
        o = os.path.join(obj, os.path.basename(f) + "-" + _hash([f] + hdrs, " ".join(flags)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([CXX, *flags, "-c", f, "-o", o + f".{os.getpid()}.tmp"], f))
    _compile_many(jobs)
    for o in objs:
        if os.path.exists(o + f".{os.getpid()}.tmp"):
            os.replace(o + f".{os.getpid()}.tmp", o)
    r = _run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"])
    r = _run([CXX, "-shared", *objs, "-o", pkg + "/_sphgeom" + r.stdout.strip()])
    if r.returncode:
        raise InfraError("linking the Python module failed:\n" + r.stdout[-3000:])
    for f in py:
        shutil.copy(f, pkg)
    with open(pkg + "/version.py", "w") as fh:
        fh.write("__all__ = ('__version__',)\n__version__ = 'verif'\n")
    if not os.path.exists(pkg + "/__init__.py"):
        raise InfraError("no __init__.py in " + pydir)
    open(root + "/done", "w").close()
    keep = set(objs)
    for o in sorted(glob.glob(obj + "/*.o"), key=os.path.getmtime, reverse=True)[150:]:
        if o not in keep:
            os.remove(o)
    _prune("py", root)
    return root


def run_python(script, args, timeout=600):
    """Runs harness/<script> against the freshly built package. Returns (returncode, stderr tail, stdout)."""
    env = dict(os.environ, PYTHONPATH=pymodule(), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        r = subprocess.run([PYTHON, os.path.join(HARN, script), *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, timeout=timeout, text=True, errors="replace", stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return 124, "timed out", ""
    return r.returncode, r.stderr[-6000:], r.stdout


def java_classes():
    srcs = glob.glob(SPEC + "/java/*.java")
    d = os.path.join(BUILD, "java-" + _hash(srcs))
    if not os.path.exists(d + "/done"):
        os.makedirs(d, exist_ok=True)
        r = _run(["javac", "-cp", TLAJARS, "-d", d, *srcs])
        if r.returncode:
            raise InfraError("javac: " + r.stdout)
        open(d + "/done", "w").close()
    return d


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def run_driver(exe, args, timeout=300, stdin=None):
    """Returns (returncode, stderr tail). 0 is success; anything else is a crash/abort of the code under test."""
    env = dict(os.environ, **SAN_ENV)
    try:
        r = subprocess.run([exe, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           timeout=timeout, text=True, errors="replace", stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        return 124, "driver timed out", ""
    return r.returncode, r.stderr[-6000:], r.stdout


class Stop(Exception):
    pass


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        m = re.search(r"Finished computing initial states: (\d+) distinct", out)
        self.initial = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = None
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"(?:Action|Temporal) property (\S+) is violated", out)
        if m:
            self.violated = m.group(1)
        elif re.search(r"Postcondition \S+ .*(is false|violated)", out):
            self.violated = "POSTCONDITION"
        elif "Temporal properties were violated" in out:
            self.violated = "temporal"
        self.prints = [l for l in out.splitlines() if l.startswith('<<"') or l.startswith('"') or l.startswith("[")]

    @property
    def transitions(self):
        return max(0, self.generated - self.initial)

    def rejects(self):
        """<<"REJECT", ...>> lines printed by trace specs."""
        r = []
        # TLC wraps long tuples over several lines
        for m in re.finditer(r'<<\s*"REJECT",(.*?)>>\s*(?=\n(?:<<|[A-Z"\d%-])|\Z)', self.out, re.S):
            r.append(re.sub(r"\s+", " ", m.group(1)).strip())
        return r


def tlc(module, cfg=None, env=None, workers=None, timeout=600, mem="6g", simulate=None, extra=(), sink=None,
        eval_errors=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    classes = java_classes()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", f"{classes}:{TLAJARS}", "tlc2.TLC",
           "-workers", str(workers or JOBS), "-metadir", meta, "-noGenerateSpecTE", "-config",
           os.path.join(SPEC, (cfg or module) + ".cfg")]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        if sink:
            with open(sink, "w") as fh:
                r = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
            with open(sink, errors="replace") as fh:
                # keep only TLC's own messages
                out = "".join(l for l in fh if not l.startswith('"@'))
            rc = r.returncode
        else:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout,
                               text=True, errors="replace", cwd=meta)
            out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        raise InfraError(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = re.sub(r"(?m)^(Parsing file|Semantic processing|Linting of) .*\n", "", out)
    res = TLCResult(rc, out, time.time() - t0)
    if not res.ok and res.violated is None and eval_errors and re.search(
            r"TLC threw an unexpected exception|Error: Evaluating|was not in the domain|Attempted to|Evaluating", out) and \
            "OutOfMemory" not in out and "StackOverflow" not in out:
        res.violated = "EVALUATION"
    if not res.ok and res.violated is None:
        raise InfraError(f"TLC failed on {module}/{cfg} rc={rc}:\n{out[-5000:]}")
    return res


_scratch = None


def scratch():
    """A scratch directory below /verif/build, removed at exit."""
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def known_findings(pid):
    """finding: property=<id> key=<key> <text>  lines of /verif/known_findings.txt"""
    r = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as fh:
            for l in fh:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


class Check:
    """Collects the outcome of one property check."""

    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.replayed = self.events = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []
        self.known_hit = {}
        self.known = known_findings(pid)
        self.outdir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)

    quick = property(lambda s: s.tier == "quick")

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.transitions

    def model(self, module, cfg=None, **kw):
        """Exhaustive (or simulated) model check of the specification itself."""
        r = tlc(module, cfg, **kw)
        self.add_tlc(r)
        if not r.ok:
            raise InfraError(f"the specification {module}/{cfg or module} violates {r.violated}:\n{r.out[-3000:]}")
        self.extra.setdefault("models", []).append(
            {"model": cfg or module, "distinct": r.distinct, "generated": r.generated, "depth": r.depth,
             "wall_s": round(r.wall, 2)})
        return r

    def violation(self, what, detail=None, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = what
            return
        path = os.path.join(self.outdir, f"violation-{len(self.violations) + 1}.txt")
        if len(self.violations) < 20:
            with open(path, "w") as fh:
                fh.write(what + "\n\n")
                if detail:
                    fh.write(detail if isinstance(detail, str) else json.dumps(detail, indent=1))
                    fh.write("\n")
            self.violations.append((what, path))
        else:
            self.violations.append((what, self.violations[0][1]))

    def stop(self):
        """Once something is found the rest need not run (code that hangs once would hang everywhere)."""
        if self.violations:
            raise Stop()

    def save(self, name, src):
        dst = os.path.join(self.outdir, re.sub(r"[^\w.+-]", "_", name))
        shutil.copyfile(src, dst)
        return dst

    def driver_ok(self, exe, args, timeout=None, what="driver"):
        """Run a driver; a crash is reported as a violation. Returns stdout or None."""
        self.stop()
        timeout = timeout or self.n(300, 900)
        rc, err, out = run_driver(exe, args, timeout)
        if rc != 0:
            rc2, err2, out2 = run_driver(exe, args, timeout)
            if rc2 == 0 and rc in (-9, 137, 124):
                raise InfraError(f"{what}: exit {rc} did not repeat: {err}")
            self.violation(f"{what}: the code under test crashed or aborted (exit {rc}) on {args}", err)
            return None
        return out

    def python_ok(self, script, args, timeout=None, what="script"):
        """Run a Python recorder; a crash is reported as a violation. Returns stdout or None."""
        self.stop()
        timeout = timeout or self.n(300, 1200)
        rc, err, out = run_python(script, args, timeout)
        if rc == 3:
            raise InfraError(f"{what}: {out[-2000:]} {err}")
        if rc != 0:
            rc2, err2, out2 = run_python(script, args, timeout)
            if rc2 == 0 and rc in (-9, 137, 124):
                raise InfraError(f"{what}: exit {rc} did not repeat: {err}")
            self.violation(f"{what}: the code under test crashed or raised where it should not (exit {rc}) on {args}", err + out)
            return None
        return out

    def trace(self, module, path, cfg=None, n_traces=None, what="trace", env=None, timeout=800, samples=1, keyfn=None,
              mem="8g", chunk=4000):
        """Validate recorded behaviours (ndjson, one independent history or event per line) against a trace
        specification, a few thousand lines at a time. Each REJECT line is a violation."""
        with open(path) as fh:
            lines = fh.readlines()
        if not lines:
            raise InfraError(f"empty trace {path}")
        part = os.path.join(scratch(), "part.ndjson")
        rejected, states, wall = 0, 0, 0.0
        for off in range(0, len(lines), chunk):
            sub = lines[off:off + chunk]
            with open(part, "w") as fh:
                fh.writelines(sub)
            e = dict(env or {}, TRACE=part)
            run = lambda: tlc(module, cfg, env=e, timeout=timeout, mem=mem, eval_errors=True)
            r = run()
            self.add_tlc(r)
            states, wall = states + r.distinct, wall + r.wall
            rej = r.rejects()
            if not r.ok and not rej:
                rej = [f"{r.violated}: " + r.out[-1500:]]
            if not rej:
                continue
            r2 = run()
            if r2.ok and not r2.rejects():
                raise InfraError(f"rejection of {path} by {module} did not repeat")
            saved = self.save(f"{module}-{what.replace(' ', '_')}-{off}.ndjson", part)
            rejected += len(rej)
            for x in rej:
                m = re.match(r"(\d+)", x)
                i = int(m.group(1)) if m else None
                ev = sub[i - 1].strip() if i and 0 < i <= len(sub) else ""
                key = keyfn(x, ev) if keyfn else None
                self.violation(f"{what}: {module} rejects a recorded behaviour: {x[:600]}",
                               f"trace file: {saved}\nTLC: {x}\nline: {ev[:20000]}\n", key)
            if len(self.violations) > 20:
                break
        if not rejected:
            self.traces += n_traces if n_traces is not None else len(lines)
            self.events += len(lines)
        for l in lines[:samples]:
            self.samples.append({"from": os.path.basename(path), "event": l.strip()[:600]})
        self.extra.setdefault("traces", []).append(
            {"spec": module, "lines": len(lines), "states": states, "rejected": rejected, "wall_s": round(wall, 2)})

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
               "transitions_replayed_into_impl": self.replayed, "events_validated": self.events}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k, t in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}")
        for what, path in self.violations[:20]:
            log("violation:", what[:1000])
            print(f"VIOLATION property={self.pid} replay={path}")
        sys.stdout.flush()
        return 1 if self.violations else 0
