"""Build driver, verdict discipline and evidence shared by every check."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
JOBS = max(2, min(8, os.cpu_count() or 4))
CPU_LIMIT = 60          # seconds of CPU per compiler run; ordinary runs take 0.1-2 s
WALL_LIMIT = 300        # watchdog only; firing is inconclusive
NIGHTLY = "+nightly"


class Inconclusive(Exception):
    """The check could not give an answer (environment or harness trouble)."""


# ------------------------------------------------------------------ source identity

def _files(root, rels):
    for rel in rels:
        p = os.path.join(root, rel)
        if os.path.isfile(p):
            yield p
        else:
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    yield os.path.join(d, f)


def source_hash():
    h = hashlib.sha256()
    for p in list(_files(REPO, ["Cargo.toml", "src", "pin-project-internal/Cargo.toml",
                                "pin-project-internal/src", "pin-project-internal/build.rs"])) + \
            list(_files(os.path.join(VERIF, "harness"), ["base", "vrt", "vaux", "vlean"])):
        if "/target/" in p:
            continue
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            pass
    return h.hexdigest()[:16]


def env_clean(extra=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "MIRIFLAGS", "RUSTDOC")) or k in ("CARGO_HOME",)}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTUP_TOOLCHAIN", None)
    if extra:
        e.update(extra)
    return e


def run(cmd, timeout=WALL_LIMIT, cwd=None, env=None, cpu=None, stdin=None):
    """Runs a command; returns (rc, stdout, stderr, status) with status ok|timeout|cpu."""
    def pre():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or env_clean(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL if stdin is None else None,
                           timeout=timeout, preexec_fn=pre, start_new_session=True)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace"), "timeout"
    st = "ok"
    if p.returncode in (-24, -9) and cpu:
        st = "cpu" if p.returncode == -24 else "killed"
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), st


# ------------------------------------------------------------------ building

class Art:
    """Artifacts of one build of the crate under test."""

    def __init__(self, root, deps, toolchain):
        self.root = root
        self.deps = deps
        self.toolchain = toolchain
        self.ext = {}
        for n in ("pin_project", "vrt", "vlean"):
            self.ext[n] = self._one("lib%s-" % n, ".rlib")
        self.ext["vaux"] = self._one("libvaux-", ".so")

    def _one(self, pre, suf):
        c = [f for f in os.listdir(self.deps) if f.startswith(pre) and f.endswith(suf)]
        if not c:
            raise Inconclusive("no artifact %s*%s" % (pre, suf))
        c.sort(key=lambda f: os.path.getmtime(os.path.join(self.deps, f)))
        return os.path.join(self.deps, c[-1])


_lock = threading.Lock()
_art = {}


def build(toolchain="", flags="", target=None):
    """Builds /repo's current tree plus the harness crates; cached by content."""
    key = (toolchain, flags, target)
    with _lock:
        if key in _art:
            return _art[key]
        h = source_hash()
        sub = hashlib.sha256(repr(key).encode()).hexdigest()[:6]
        root = os.path.join(BUILD, h)
        os.makedirs(root, exist_ok=True)
        os.utime(root)
        with open(os.path.join(BUILD, "lock-%s-%s" % (h, sub)), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            ws = os.path.join(root, "ws-" + sub)
            tgt = os.path.join(root, "t-" + sub)
            ok = os.path.join(root, "ok-" + sub)
            if not os.path.exists(ok):
                if os.path.exists(ws):
                    shutil.rmtree(ws)
                shutil.copytree(os.path.join(VERIF, "harness"), ws, ignore=shutil.ignore_patterns("target"))
                env = env_clean({"CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0"})
                if flags:
                    env["RUSTFLAGS"] = flags
                cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "-q"]
                if target:
                    cmd += ["--target", target]
                rc, out, err, st = run(cmd, timeout=600, cwd=os.path.join(ws, "base"), env=env)
                if rc != 0:
                    raise Inconclusive("cannot build /repo with the harness: %s\n%s" % (st, err[-4000:]))
                open(ok, "w").close()
            dd = os.path.join(tgt, target, "debug", "deps") if target else os.path.join(tgt, "debug", "deps")
            if target:  # proc macros are built for the host
                host = os.path.join(tgt, "debug", "deps")
                a = Art.__new__(Art)
                a.root, a.deps, a.toolchain, a.ext = root, dd, toolchain, {}
                for n in ("pin_project", "vrt"):
                    a.ext[n] = a._one("lib%s-" % n, ".rlib")
                a.hostdeps = host
                a.ext["vaux"] = None
                art = a
            else:
                art = Art(root, dd, toolchain)
                art.hostdeps = dd
        prune(h)
        _art[key] = art
        return art


class NArt:
    """Artifacts of a nightly build (interpreter or sanitizer); programs link the lean runtime as `vrt`."""

    def __init__(self, tgt, kind, sysroot):
        self.kind, self.sysroot = kind, sysroot
        dirs, found = set(), {}
        for d, ds, fs in os.walk(tgt):
            ds[:] = [x for x in ds if x not in ("incremental", ".fingerprint")]
            for f in fs:
                if f.startswith("lib") and f.endswith((".rlib", ".rmeta", ".so")):
                    dirs.add(d)
                    if TRIPLE in d:
                        m = re.match(r"lib(pin_project|vlean|vrt)-[0-9a-f]+(\.rlib|\.rmeta)$", f)
                        if m:
                            found.setdefault(m.group(1), {})[m.group(2)] = os.path.join(d, f)
        if set(found) != {"pin_project", "vlean", "vrt"}:
            raise Inconclusive("nightly build left no artifacts in " + tgt)
        self.flags = []
        for d in sorted(dirs):
            self.flags += ["-L", "dependency=" + d]
        self.found = found

    def externs(self, full=False):
        out = []
        for name, crate in (("pin_project", "pin_project"), ("vrt", "vrt" if full else "vlean")):
            for suf in (".rlib", ".rmeta"):
                if suf in self.found[crate]:
                    out += ["--extern", "%s=%s" % (name, self.found[crate][suf])]
        return out


TRIPLE = "x86_64-unknown-linux-gnu"
_nart = {}


def build_nightly(kind):
    """kind: miri | asan."""
    with _lock:
        if kind in _nart:
            return _nart[kind]
        h = source_hash()
        root = os.path.join(BUILD, h)
        os.makedirs(root, exist_ok=True)
        os.utime(root)
        sysroot = None
        if kind == "miri":
            rc, so, se, st = run(["cargo", NIGHTLY, "miri", "setup", "--print-sysroot"], timeout=600)
            sysroot = so.strip().splitlines()[-1] if so.strip() else ""
            if rc != 0 or not os.path.isdir(sysroot):
                raise Inconclusive("no interpreter sysroot: " + se[-500:])
        with open(os.path.join(BUILD, "lock-%s-%s" % (h, kind)), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            ws, tgt, ok = (os.path.join(root, x + kind) for x in ("ws-", "t-", "ok-"))
            if not os.path.exists(ok):
                shutil.rmtree(ws, ignore_errors=True)
                shutil.copytree(os.path.join(VERIF, "harness"), ws, ignore=shutil.ignore_patterns("target"))
                env = env_clean({"CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0"})
                if kind == "miri":
                    with open(os.path.join(ws, "base", "src", "main.rs"), "w") as f:
                        f.write("fn main() {}\n")
                    cmd = ["cargo", NIGHTLY, "miri", "run", "--offline", "-q", "--target", TRIPLE]
                else:
                    env["RUSTFLAGS"] = "-Zsanitizer=address"
                    cmd = ["cargo", NIGHTLY, "build", "--offline", "-q", "--target", TRIPLE]
                rc, out, err, st = run(cmd, timeout=600, cwd=os.path.join(ws, "base"), env=env)
                if rc != 0:
                    raise Inconclusive("cannot build /repo for %s: %s\n%s" % (kind, st, err[-3000:]))
                open(ok, "w").close()
        _nart[kind] = NArt(tgt, kind, sysroot)
        return _nart[kind]


def prune(keep):
    try:
        ds = [d for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{16}", d) and d != keep]
        ds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        now = time.time()
        for d in ds[:-2]:
            p = os.path.join(BUILD, d)
            if now - os.path.getmtime(p) > 900:
                shutil.rmtree(p, ignore_errors=True)
                for f in os.listdir(BUILD):
                    if f.startswith("lock-" + d):
                        os.unlink(os.path.join(BUILD, f))
    except OSError:
        pass


# ------------------------------------------------------------------ compiling programs

class Res:
    """What the compiler said about one program."""

    def __init__(self, rc, diags, raw, status, path):
        self.rc, self.diags, self.raw, self.status, self.path = rc, diags, raw, status, path

    @property
    def ok(self):
        return self.rc == 0

    @property
    def errors(self):
        return [d for d in self.diags if d.get("level", "").startswith("error")]

    @property
    def warnings(self):
        return [d for d in self.diags if d.get("level") == "warning"]

    @property
    def ice(self):
        return any("internal compiler error" in d.get("level", "") or "internal compiler error" in d.get("message", "")
                   for d in self.diags) or "internal compiler error" in self.raw

    @property
    def macro_panic(self):
        return any(re.search(r"(proc.macro|custom attribute|derive)\w* .*panicked|panicked$", d.get("message", "")) and
                   ("panick" in d.get("message", "")) for d in self.errors)

    def codes(self):
        return sorted({(d.get("code") or {}).get("code") for d in self.errors if d.get("code")})

    def msgs(self):
        return [d.get("message", "") for d in self.errors]

    def brief(self, n=3):
        return "; ".join(("%s %s" % ((d.get("code") or {}).get("code") or "", d.get("message", ""))).strip()
                         for d in self.errors[:n])[:600]


class Workdir:
    """Scratch directory under /verif/.build, removed at exit."""

    def __init__(self, prop):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


_cnt = [0]


def uniq():
    with _lock:
        _cnt[0] += 1
        return _cnt[0]


def rustc(art, wd, src, name="p", edition="2021", emit="metadata", crate_type="lib", extra=(), externs=("pin_project", "vrt"),
          cpu=CPU_LIMIT, cap_warn=True, out=None, crate="prog", env=None):
    """Compiles one program against the current build. Never raises for rejections."""
    n = uniq()
    d = os.path.join(wd, "%s_%d" % (re.sub(r"\W", "_", name)[:40], n))
    os.makedirs(d)
    path = os.path.join(d, "main.rs")
    with open(path, "w") as f:
        f.write(src)
    o = out or os.path.join(d, "out.bin" if emit == "link" else "out.rmeta")
    cmd = ["rustc"] + ([art.toolchain] if art.toolchain else [])
    cmd += ["--edition", edition, "--crate-type", crate_type, "--emit", emit, "-o", o, "--error-format=json",
            "-L", "dependency=" + art.deps, "--crate-name", crate]
    if art.hostdeps != art.deps:
        cmd += ["-L", "dependency=" + art.hostdeps]
    if cap_warn:
        cmd += ["-A", "warnings"]
    for e in externs:
        p = e if "=" in e else "%s=%s" % (e, art.ext[e])
        cmd += ["--extern", p]
    cmd += list(extra) + [path]
    for attempt in (1, 2):
        rc, so, se, st = run(cmd, cwd=d, cpu=cpu, env=env_clean(env) if env else None)
        if st in ("timeout", "killed") and attempt == 1:
            continue
        break
    diags = []
    for line in se.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    r = Res(rc, diags, se, st, path)
    r.out = o
    r.stdout = so
    r.cmd = cmd
    if st in ("timeout", "killed"):
        raise Inconclusive("compiler %s on %s" % (st, path))
    if r.ice:
        # A compiler crash is the compiler's; never the property's.
        raise Inconclusive("internal compiler error on %s: %s" % (path, se[-800:]))
    if rc is not None and rc < 0 and st != "cpu":
        raise Inconclusive("compiler died (%s) on %s" % (rc, path))
    return r


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ the check object

class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.wd = Workdir(prop)
        self.violations = []      # (signature, message, replay dict)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cov = {}
        self.rule = ""
        self.assumptions = []
        self.trouble = []
        self.lk = threading.Lock()
        self.art = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self):
        self.art = build()
        return self.art

    def rustc(self, src, **kw):
        return rustc(self.art, self.wd.path, src, **kw)

    def case(self, key, nontrivial=True, n=1):
        with self.lk:
            self.evaluations += n
            if nontrivial:
                self.distinct.add(key if isinstance(key, str) else repr(key))

    def sample(self, s):
        with self.lk:
            if len(self.samples) < 6:
                self.samples.append(s)

    def count(self, name, n=1):
        with self.lk:
            self.cov[name] = self.cov.get(name, 0) + n

    def violate(self, sig, msg, **replay):
        with self.lk:
            self.violations.append((sig, msg, replay))

    def inconclusive(self, msg):
        with self.lk:
            self.trouble.append(msg)

    def finish(self, floor=1):
        known = load_known(self.prop)
        fresh = []
        seen = set()
        for sig, msg, rep in self.violations:
            if sig in known:
                if sig not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, known[sig]))
                    seen.add(sig)
                continue
            fresh.append((sig, msg, rep))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict({
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples[:6],
            }, **self.cov),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        if self.trouble:
            ev["coverage"]["inconclusive"] = self.trouble[:10]
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        rd = os.path.join(EVID, "replay", self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        for i, (sig, msg, rep) in enumerate(fresh[:20]):
            os.makedirs(rd, exist_ok=True)
            base = os.path.join(rd, "%02d" % i)
            with open(base + ".txt", "w") as f:
                f.write("property: %s\nseed: %d tier: %s\nsignature: %s\n%s\n" % (self.prop, self.seed, self.tier, sig, msg))
                for k, v in rep.items():
                    if k != "src":
                        f.write("--- %s ---\n%s\n" % (k, v))
            if "src" in rep:
                with open(base + ".rs", "w") as f:
                    f.write(rep["src"])
        for i, (sig, msg, rep) in enumerate(fresh[:20]):
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(rd, "%02d.txt" % i)))
            print("  [%s] %s" % (sig, msg[:400].replace("\n", " ")))
        self.wd.close()
        if fresh:
            sys.stdout.flush()
            return 1
        if self.trouble:
            print("INCONCLUSIVE: %s" % "; ".join(self.trouble[:3])[:2000])
            return 2
        if self.evaluations < floor or len(self.distinct) == 0:
            print("INCONCLUSIVE: observed only %d evaluations (%d distinct)" % (self.evaluations, len(self.distinct)))
            return 2
        print("held: %s evaluations=%d distinct=%d wall=%.1fs" %
              (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


def load_known(prop):
    """Known findings: lines `known: property=<id> sig=<signature> <text>`; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    try:
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out
