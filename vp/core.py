"""Shared machinery of the checks: building, compiling in parallel, verdicts, evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
TOOLCHAIN = "nightly-2025-03-20"
JOBS = os.cpu_count() or 8


class Inconclusive(Exception):
    """The check could not decide (harness, tool or resource problem): exit 2, never a violation."""


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", RUSTC_ICE="0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def sh(cmd, timeout=600, cwd=None, e=None, stdin=None):
    """Runs a command; a time-out or an unusual death is inconclusive."""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           input=stdin, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Inconclusive("timeout: " + " ".join(map(str, cmd))[:300])
    return p


def run_limited(cmd, timeout, cwd=None, e=None):
    """Runs a program; (exit code or None on time-out, stdout, stderr)."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=fo, stderr=fe, stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        fo.seek(0)
        fe.seek(0)
        return rc, fo.read().decode(errors="replace"), fe.read().decode(errors="replace")


def pmap(f, items, workers=None):
    with cf.ThreadPoolExecutor(workers or JOBS) as ex:
        return list(ex.map(f, items))


class Violation(Exception):
    def __init__(self, what, files=None):
        super().__init__(what)
        self.what = what
        self.files = files or {}


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}:{self.seed}")
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.evaluations = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.violations = []
        self.level = "exploration"
        self.known = load_known(prop)
        self.known_seen = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def left(self, quick=600, thorough=3000):
        return (quick if self.quick else thorough) - (time.time() - self.t0)

    def violation(self, what, files=None):
        """Records a violation (unless it is a listed known finding) with the files that replay it."""
        for sig in self.known:
            if sig in what:
                if sig not in self.known_seen:
                    self.known_seen.append(sig)
                return
        self.violations.append((what, files or {}))

    def check_enough(self):
        """Ends the run early when a violation is established."""
        if self.violations:
            raise Violation("stop")

    def evidence(self):
        cov = {"evaluations": self.evaluations,
               "distinct_nontrivial": self.ndistinct + len(self.distinct),
               "rule": self.rule, "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def report(self):
        what, files = self.violations[0]
        d = os.path.join(ROOT, "replays", self.prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for i, (w, fs) in enumerate(self.violations[:5]):
            with open(os.path.join(d, f"what-{i}.txt"), "w") as f:
                f.write(w + "\n")
            for name, text in fs.items():
                with open(os.path.join(d, f"{i}-{name}"), "w") as f:
                    f.write(text)
        for w, _ in self.violations[:5]:
            print("  " + w.replace("\n", "\n  ")[:3000])
        print(f"VIOLATION property={self.prop} replay={d}")


def load_known(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) signature=(.+)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def run_check(prop, fn):
    c = Check(prop)
    rc = 0
    try:
        try:
            fn(c)
        except Violation:
            pass
        c.evidence()
        for sig in c.known_seen:
            print(f"KNOWN-FINDING: property={prop} {sig}")
        if c.violations:
            c.report()
            rc = 1
        elif c.evaluations == 0:
            print(f"inconclusive: {prop} observed nothing")
            rc = 2
        else:
            print(f"ok {prop} tier={c.tier} seed={c.seed} evaluations={c.evaluations} "
                  f"distinct={c.ndistinct + len(c.distinct)} wall={time.time() - c.t0:.1f}s")
    except Inconclusive as e:
        print(f"inconclusive: {prop}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if not os.environ.get("VP_KEEP"):
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


# ---- building -------------------------------------------------------------------------------
def cargo_build(harness, toolchain=None, timeout=900, extra=(), target=None, e=None):
    """Builds a harness crate under /verif/h and returns {crate name: artifact path}, the deps dir."""
    d = os.path.join(ROOT, "h", harness)
    tdir = target or os.path.join(BUILD, "cargo")
    ee = e or env()
    ee["CARGO_TARGET_DIR"] = tdir
    if toolchain:
        ee["RUSTUP_TOOLCHAIN"] = toolchain
    p = sh(["cargo", "build", "--offline", "--message-format=json", *extra], timeout, d, ee)
    arts, deps, errs = {}, set(), []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            errs.append(m["message"].get("rendered") or "")
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    arts.setdefault(m["target"]["name"].replace("-", "_") + "@" + m["package_id"].split("#")[-1].split("@")[-1], f)
                    arts[m["target"]["name"].replace("-", "_")] = f
                    deps.add(os.path.dirname(f))
    if p.returncode != 0:
        raise Inconclusive(f"building {harness} failed:\n" + p.stderr[-2000:] + "".join(errs)[:2000])
    return arts, sorted(deps)


class Rustc:
    """Direct rustc with prebuilt extern crates."""
    def __init__(self, check, externs, deps, edition="2021", toolchain=None):
        self.c, self.externs, self.deps, self.edition, self.tc = check, dict(externs), list(deps), edition, toolchain

    def cmd(self, src, out, crate_type="bin", cfgs=(), extra=(), edition=None, externs=None, lints="allow"):
        cmd = ["rustc", src, "--crate-type", crate_type, "--edition", edition or self.edition, "-o", out,
               "-C", "debuginfo=0", "-C", "opt-level=0", "--error-format=json", "--cap-lints", lints,
               "-C", "codegen-units=1"]
        for d in self.deps:
            cmd += ["-L", "dependency=" + d]
        for k, v in (externs or self.externs).items():
            cmd += ["--extern", f"{k}={v}"]
        for x in cfgs:
            cmd += ["--cfg", x]
        return cmd + list(extra)

    def __call__(self, src, out, timeout=300, e=None, **kw):
        ee = e or env()
        if self.tc:
            ee["RUSTUP_TOOLCHAIN"] = self.tc
        p = sh(self.cmd(src, out, **kw), timeout, None, ee)
        diags = []
        for line in p.stderr.splitlines():
            if line.startswith("{"):
                try:
                    diags.append(json.loads(line))
                except ValueError:
                    pass
        if p.returncode not in (0, 1) or "internal compiler error" in p.stderr:
            raise Inconclusive(f"rustc died ({p.returncode}) on {src}:\n{p.stderr[-2000:]}")
        return p.returncode == 0, diags


def errors(diags):
    return [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due")]


def primary_lines(d, fname=None):
    """Line ranges of a diagnostic in the source file, following macro expansion back to it."""
    out = []
    for s in d.get("spans", []):
        while s is not None:
            if fname is None or os.path.basename(s["file_name"]) == os.path.basename(fname):
                out.append((s["line_start"], s["line_end"]))
            s = (s.get("expansion") or {}).get("span")
    return out


_base = None


def base(check, toolchain=None):
    """auto_enums with all features, nothing else; returns a Rustc."""
    arts, deps = cargo_build("base", toolchain, target=toolchain and os.path.join(BUILD, toolchain))
    return Rustc(check, {"auto_enums": arts["auto_enums"]}, deps, toolchain=toolchain)


_ext = {}


def ext(check, family, toolchain=None):
    """auto_enums with the crates of a family, under the names the generated code uses."""
    if toolchain not in _ext:
        _ext[toolchain] = cargo_build("ext", toolchain, target=toolchain and os.path.join(BUILD, toolchain + "-ext"))
    arts, deps = _ext[toolchain]
    def v(name, major):
        k = [a for a in arts if a.startswith(name + "@" + major)]
        if len(k) != 1:
            raise Inconclusive(f"no {name} {major}: {k}")
        return arts[k[0]]
    m = {"auto_enums": arts["auto_enums"]}
    m.update({"none": {}, "futures03": dict(futures=v("futures_util", "0.3")), "futures01": dict(futures=v("futures", "0.1"), tokio=v("tokio", "0.1")),
              "tokio1": dict(tokio=v("tokio", "1.")), "tokio03": dict(tokio=v("tokio", "0.3")), "tokio02": dict(tokio=v("tokio", "0.2")),
              "http_body1": dict(http_body=v("http_body", "1.")), "rayon": dict(rayon=v("rayon", "1.")), "serde": dict(serde=v("serde", "1."))}[family])
    return Rustc(check, m, deps, toolchain=toolchain)


def setup():
    """Checks that the tools are there and compiles the harness crates once (every check rebuilds what it needs)."""
    arts, _ = cargo_build("base")
    print("setup: built", os.path.basename(arts["auto_enums"]))
