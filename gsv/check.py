#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of the crate in /repo by contracts.

  extract typed bodies (rustc) -> translate to Lean -> one obligation per function contract
  -> property theorems over the contracts -> linked theorem with no open hypotheses.
A failed obligation in the property's closure is a violation; the replay crate then searches for an
input on which the real code breaks the property.  Exit 0 or 1 (2: the crate itself does not build)."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GSV_REPO", "/repo")
CACHE = os.environ.get("GSV_CACHE")
sys.path.insert(0, HERE)
import emit, props, specs, translate
STD_AX = {"propext", "Classical.choice", "Quot.sound"}
T0 = time.time()
BUDGET = float(os.environ.get("GSV_BUDGET", "600"))      # seconds for proofs, from the start
LEANROOT = "/app/lean4-4.33.0/build/release/stage1"
MATHLIB = "/app/mathlib4-4.33.0/.lake"
JOBS = max(2, min(8, os.cpu_count() or 8))

class Broken(Exception):
    """the check cannot run at all (the crate does not build, a tool is missing)"""

def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- processes
PROCS, PLOCK = set(), threading.Lock()
def run(cmd, cwd=None, env=None, timeout=None, nice=0):
    """(rc or None on timeout, stdout, stderr, seconds)"""
    t = time.time()
    if nice:
        cmd = ["nice", "-n", str(nice)] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    with PLOCK:
        PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        killp(p)
        o, e = p.communicate()
        rc = None
    finally:
        with PLOCK:
            PROCS.discard(p)
    return rc, o, e, time.time() - t
def killp(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
def killall():
    with PLOCK:
        for p in list(PROCS):
            killp(p)

def base_env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    if not os.path.isdir(os.path.join(home, ".cargo")) and os.path.isdir("/root/.cargo"):
        e["HOME"] = "/root"
    e["PATH"] = ":".join(["/root/.cargo/bin", e.get("PATH", ""), "/usr/local/bin", "/usr/bin", "/bin"])
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "DETERMINISTIC_TEST_RNG", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return e
ENV = base_env()
def lean_env(extra):
    e = dict(ENV)
    paths = [MATHLIB + "/build/lib", MATHLIB + "/build/lib/lean"]
    pk = MATHLIB + "/packages"
    if os.path.isdir(pk):
        for d in sorted(os.listdir(pk)):
            paths += [f"{pk}/{d}/.lake/build/lib", f"{pk}/{d}/.lake/build/lib/lean"]
    paths.append(LEANROOT + "/lib/lean")
    if os.environ.get("LEAN_PATH"):
        paths = os.environ["LEAN_PATH"].split(":")
    e["LEAN_PATH"] = ":".join([extra] + paths)
    e["LD_LIBRARY_PATH"] = LEANROOT + "/lib/lean:" + e.get("LD_LIBRARY_PATH", "")
    e["PATH"] = LEANROOT + "/bin:" + e["PATH"]
    return e

# ---------------------------------------------------------------- Lean
class Lean:
    def __init__(self, work):
        self.work, self.src, self.out = work, os.path.join(work, "s"), os.path.join(work, "o")
        os.makedirs(self.src), os.makedirs(os.path.join(self.out, "Gsv"))
        self.env = lean_env(self.out)
        self.exe = LEANROOT + "/bin/lean"
        if not os.path.exists(self.exe):
            self.exe = shutil.which("lean", path=self.env["PATH"])
            if not self.exe:
                raise Broken("no Lean")
        self.seconds, self.lock = 0.0, threading.Lock()
    def compile(self, mod, root=None, timeout=300, keep=True):
        """(ok, messages, seconds); messages as (severity, line, text)"""
        root = root or self.src
        rel = mod.replace(".", "/")
        cmd = [self.exe, "--json", "-M", "6000", "-R", root]
        if keep:
            cmd += ["-o", f"{self.out}/{rel}.olean"]
        rc, o, e, s = run(cmd + [f"{root}/{rel}.lean"], cwd=root, env=self.env, timeout=timeout)
        with self.lock:
            self.seconds += s
        ms = []
        for l in o.splitlines():
            try:
                j = json.loads(l)
                ms.append((j["severity"], (j.get("pos") or {}).get("line", 0), j["data"]))
            except (ValueError, KeyError):
                if l.strip():
                    ms.append(("error", 0, l))
        if rc is None:
            ms.append(("timeout", 0, f"no answer within {timeout:.0f} s"))
        elif rc and not any(m[0] == "error" for m in ms):
            ms.append(("error", 0, (e or o)[-800:] or f"lean ended with {rc}"))
        return rc == 0, ms, s

PRELUDE = {"Attr": [], "Core": ["Attr"], "Env": ["Core"], "Ser": ["Env"], "Math": ["Ser"], "Itn": ["Env"], "Tac": ["Math", "Itn"],
           "Theory": ["Math"], "WI": ["Theory"], "Prp": ["WI"], "Inst": ["Ser"]}
class Prelude:
    """compile the fixed Lean files, in parallel along their import graph"""
    def __init__(self, lean):
        self.lean, self.ev, self.err = lean, {m: threading.Event() for m in PRELUDE}, {}
        for m in PRELUDE:
            threading.Thread(target=self.one, args=(m,), daemon=True).start()
    def key(self, m):
        h = hashlib.sha256(open(f"{VERIF}/lean/Gsv/{m}.lean", "rb").read())
        for d in PRELUDE[m]:
            h.update(self.key(d).encode())
        return h.hexdigest()[:24]
    def one(self, m):
        try:
            for d in PRELUDE[m]:
                self.ev[d].wait()
                if d in self.err:
                    self.err[m] = self.err[d]
                    return
            dst = f"{self.lean.out}/Gsv/{m}.olean"
            c = CACHE and f"{CACHE}/{m}-{self.key(m)}.olean"
            if c and os.path.exists(c):
                shutil.copy(c, dst)
                return
            ok, ms, _ = self.lean.compile("Gsv." + m, root=f"{VERIF}/lean", timeout=400)
            if not ok:
                self.err[m] = f"prelude {m}: " + "; ".join(x[2] for x in ms if x[0] != "information")[:1500]
            elif c:
                os.makedirs(CACHE, exist_ok=True)
                shutil.copy(dst, c)
        except Exception as ex:
            self.err[m] = f"prelude {m}: {ex}"
        finally:
            self.ev[m].set()
    def need(self, *ms):
        for m in ms:
            self.ev[m].wait()
            if m in self.err:
                raise Broken(self.err[m])

# ---------------------------------------------------------------- Rust
def extract(work):
    """typed bodies of every function of the crate, from the compiler"""
    gx = (CACHE + "/gsx") if CACHE else work + "/gsx"
    tn = (CACHE + "/tn") if CACHE else work + "/tn"
    rc, o, e, _ = run(["cargo", "+nightly", "build", "--offline", "--manifest-path", f"{VERIF}/extract/Cargo.toml"],
                      cwd=f"{VERIF}/extract", env=dict(ENV, CARGO_TARGET_DIR=gx), timeout=300)
    if rc != 0:
        raise Broken("the extractor does not build: " + e[-1500:])
    rc, sysroot, _, _ = run(["rustc", "+nightly", "--print", "sysroot"], env=ENV, timeout=60)
    out = work + "/dump.json"
    if CACHE:
        for d, ds, fs in os.walk(tn, topdown=False):
            for n in ds + fs:
                if re.match(r"(lib)?groth.sahai", n):
                    p = os.path.join(d, n)
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.path.exists(p) and os.unlink(p)
    env = dict(ENV, LD_LIBRARY_PATH=sysroot.strip() + "/lib", GSX_OUT=out, RUSTC_WORKSPACE_WRAPPER=gx + "/debug/gsx", CARGO_TARGET_DIR=tn)
    rc, o, e, _ = run(["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", f"{REPO}/Cargo.toml"], cwd=REPO, env=env, timeout=500)
    if rc != 0 or not os.path.exists(out):
        lines = e.splitlines()
        at = next((i for i, l in enumerate(lines) if l.startswith("error") or "panicked at" in l), max(0, len(lines) - 20))
        raise Broken("the crate does not build: " + "\n".join(l[:300] for l in lines[at:at + 15]))
    dump = open(out).read()
    rel = open(out + ".rel").read() if os.path.exists(out + ".rel") else None
    if rel is None:
        raise Broken("no release variant of the crate")
    return json.loads(dump), json.loads(rel) if rel != dump else None

class Replay:
    """the real crate, run on concrete inputs"""
    def __init__(self, work, pid, release=False):
        self.work, self.pid, self.exe, self.err, self.release = work, pid, None, None, release
        self.dir = f"{VERIF}/replay"
        if REPO != "/repo":
            self.dir = work + "/replaysrc"
            shutil.copytree(f"{VERIF}/replay", self.dir, dirs_exist_ok=True)
            t = open(self.dir + "/Cargo.toml").read().replace('path = "/repo"', f'path = "{REPO}"')
            open(self.dir + "/Cargo.toml", "w").write(t)
        self.lits = self.literals()
        self.th = threading.Thread(target=self.build, daemon=True)
        self.th.start()
    def literals(self):
        """integer literals of the crate's sources: sizes at which something may change"""
        ls = set()
        for d, _, fs in os.walk(f"{REPO}/src"):
            for f in fs:
                if f.endswith(".rs"):
                    t = open(os.path.join(d, f), errors="replace").read()
                    t = t.split("#[cfg(test)]")[0]
                    t = re.sub(r"//[^\n]*", "", t)
                    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w])", t):
                        try:
                            v = int(m[1].replace("_", ""), 0)
                        except ValueError:
                            continue
                        if 2 < v < 5000:
                            ls.add(v)
        return ",".join(map(str, sorted(ls)))
    def build(self):
        td = (CACHE + "/rp") if CACHE else self.work + "/rp"
        rel = ["--config", "profile.dev.package.groth-sahai.debug-assertions=false", "--config", "profile.dev.package.groth-sahai.overflow-checks=false"]
        rc, o, e, s = run(["cargo", "+stable", "build", "--offline", "--manifest-path", self.dir + "/Cargo.toml"] + (rel if self.release else []), cwd=self.dir,
                          env=dict(ENV, CARGO_TARGET_DIR=td), timeout=600, nice=5)
        if rc == 0:
            self.exe = td + "/debug/gsreplay"
            log(f"replay crate built in {s:.0f} s")
        else:
            self.err = e[-1500:]
    def search(self, seconds, seed, procs=JOBS, stop=lambda: False):
        """run in parallel, first failure wins: dict with evaluations, distinct, samples, fail"""
        self.th.join()
        r = {"evaluations": 0, "distinct": 0, "samples": [], "fail": None, "seconds": 0.0, "error": self.err}
        if not self.exe:
            return r
        def one(i):
            sd = seed * 1000 + i
            rc, o, e, s = run([self.exe, self.pid, str(sd), f"{seconds:.0f}"] + (["--lits", self.lits] if self.lits else []),
                              cwd=self.work, env=dict(ENV, RAYON_NUM_THREADS="2"), timeout=seconds + 90)
            try:
                j = json.loads(o.strip().splitlines()[-1])
            except (ValueError, IndexError):
                n = re.findall(r"^case (\d+)$", e, re.M)
                return {"seed": sd, "evaluations": 0, "distinct": 0, "samples": [], "fail": None, "crash": f"rc {rc}: {e[-300:]}",
                        "died": (rc, int(n[-1])) if n else None}
            return j
        def died(sd, rc, case):
            """a process that aborted (no panic: stack overflow, abort): a failing input if the case alone does so again, twice"""
            if rc not in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
                return None
            for _ in range(2):
                rc2, o, e, s = run([self.exe, self.pid, str(sd), "0", "--case", str(case)] + (["--lits", self.lits] if self.lits else []),
                                   cwd=self.work, env=dict(ENV, RAYON_NUM_THREADS="2"), timeout=90)
                if rc2 != rc:
                    return None
            m = " ".join(l for l in e.splitlines() if l.strip() and not l.startswith("case "))[:300]
            return {"case": case, "what": f"the process running it is killed by signal {-rc}: {m}"}
        t = time.time()
        with ThreadPoolExecutor(procs) as ex:
            futs = [ex.submit(one, i) for i in range(procs)]
            done, crashed = set(), []
            while len(done) < procs:
                for f in futs:
                    if f not in done and f.done():
                        done.add(f)
                        j = f.result()
                        if r["fail"] and j["evaluations"] == 0:
                            continue
                        r["evaluations"] += j["evaluations"]
                        r["distinct"] += j["distinct"]
                        r["samples"] += j["samples"][:2] if len(r["samples"]) < 6 else []
                        if j.get("fail") and not r["fail"]:
                            r["fail"] = dict(j["fail"], seed=j["seed"])
                            killall()
                        if j.get("crash") and not r["fail"]:
                            r["error"] = j["crash"]
                            crashed.append(j)
                time.sleep(0.05)
        for j in crashed:
            if r["fail"] or not j.get("died"):
                continue
            f = died(j["seed"], *j["died"])
            if f:
                r["fail"] = dict(f, seed=j["seed"])
        r["seconds"] = round(time.time() - t, 1)
        return r
    def command(self, fail):
        return ("GSV_RELEASE=1 " if self.release else "") + f"{VERIF}/tools/replay.sh {self.pid} {fail['seed']} {fail['case']} '{self.lits}'"

# ---------------------------------------------------------------- the contracts of one run
class Run:
    def __init__(self, pid, work, tier, seed):
        self.pid, self.work, self.tier, self.seed = pid, work, tier, seed
        self.props = [p for p in props.PROPS if pid in (p.pid, "ALL")]
        self.notes, self.forced = [], {}
        self.failed = {}          # obligation -> verifier output
        self.status = {}          # spec -> "ok" | "failed" | "bounded"
        self.used, self.mod, self.secs = {}, {}, {}
        try:
            self.times = json.load(open(f"{HERE}/times.json"))
        except OSError:
            self.times = {}
    # -- translation
    def translate(self):
        tr = translate.Tr(json.loads(json.dumps(self.dump)), force=self.forced)
        txt, order = tr.lean()
        self.tr, self.order = tr, order
        self.lname = {tr.names[k]: k for k in order}
        return txt
    def defs(self):
        """Defs.lean; a definition Lean rejects becomes opaque (covered by its contract as an assumption, and by replay)"""
        for i in range(8):
            txt = self.translate()
            open(self.lean.src + "/Defs.lean", "w").write(txt)
            if i == 0:
                self.prelude.need("Ser")
            ok, ms, s = self.lean.compile("Defs", timeout=240)
            if ok:
                return
            lines = txt.split("\n")
            starts = [(n, m[1]) for n, l in enumerate(lines, 1)
                      for m in [re.match(r"(?:noncomputable |opaque |partial |private )*(?:def|opaque|abbrev) +(?:X\.)?([\w.']+)", l)
                                or re.match(r"opaque +([\w.']+)", l)] if m]
            new = {}
            for sev, ln, t in ms:
                if sev in ("error", "timeout"):
                    c = [n for l, n in starts if l <= ln]
                    if ln and c and c[-1] in self.lname:
                        new.setdefault(self.lname[c[-1]], "Lean rejects the translation: " + t[:300])
            new = {k: v for k, v in new.items() if k not in self.forced}
            if not new:
                raise Broken("translation: " + "; ".join(m[2] for m in ms if m[0] != "information")[:1500])
            # keep only the first offender: later ones may be consequences
            first = min(new, key=lambda k: self.order.index(k))
            self.forced[first] = new[first]
            log("opaque:", self.tr.names[first], new[first][:200])
        raise Broken("translation does not elaborate")
    def contracts(self):
        avail = set(self.lname)
        drop = {}
        for i in range(6):
            C = emit.Contracts(self.tr, avail, drop)
            txt = C.decls()
            open(self.lean.src + "/Contracts.lean", "w").write(txt)
            self.prelude.need("Tac")
            ok, ms, s = self.lean.compile("Contracts", timeout=240)
            if ok:
                self.C = C
                return
            starts = [(n, l.split()[1]) for n, l in enumerate(txt.split("\n"), 1) if l.startswith("abbrev ")]
            new = {}
            for sev, ln, t in ms:
                c = [n for l, n in starts if l <= ln]
                if sev in ("error", "timeout") and c and ln:
                    new.setdefault(c[-1], t[:400])
            if not new:
                raise Broken("contracts: " + "; ".join(m[2] for m in ms if m[0] != "information")[:1500])
            drop.update(new)
        raise Broken("contracts do not elaborate")
    # -- which contracts this property can depend on
    def closure(self, roots, deps):
        seen, st, order = set(), list(roots), []
        def visit(s):
            if s in seen:
                return
            seen.add(s)
            for d in deps(s):
                visit(d)
            order.append(s)
        for s in roots:
            visit(s)
        return order
    def opaque_in(self, s):
        """functions without a definition that the obligation of contract s would have to look into"""
        opq = {self.tr.names[k] for k in self.tr.opaque}
        roots = s.fns[:s.roots]
        unf, _ = emit.unspecced_closure(self.tr, self.C.avail, set(self.C.byfn) | set(s.fns[s.roots:]), roots)
        return [f for f in roots + unf if f in opq]
    def prove(self):
        C = self.C
        private = {"CRS_prepare_real_binding_key", "CRS_prepare_simulated_hinding_key"}
        self.active = []
        for p in self.props:
            miss = [d for d in p.deps if d not in C.specs]
            lost = [f for f in private if ("X." + f) in p.stmt and (f not in self.lname or f in {self.tr.names[k] for k in self.tr.opaque})]
            lost += [d for d in miss if set(C.missing[d]) & private and all(f in private for f in C.missing[d])]
            lost += [d for d in miss if d in C.dropped and set(C.byname[d].fns) <= private]
            if lost:
                self.notes.append(f"{p.name}: not decided, it is about the private function(s) {', '.join(sorted(set(lost)))}, which no longer exist in this form")
                continue
            self.active.append(p)
            for d in miss:
                self.failed["contract " + d] = (f"no function {', '.join(C.missing[d])} any more" if d in C.missing else
                                                "the contract does not type check against the function's signature: " + C.dropped.get(d, ""))
                self.status[d] = "failed"
        texts, hyps = {}, {}
        def deps(n):
            if n not in C.specs:
                return []
            if n not in hyps:
                o = self.opaque_in(C.specs[n])
                if o:
                    self.status[n] = "bounded"
                    self.notes.append(f"contract {n} is assumed, checked on sampled inputs only: {', '.join(o)} is outside the translated subset ({self.tr.problems.get(self.lname[o[0]], '')[:160]})")
                    hyps[n] = []
                else:
                    texts[n], hyps[n] = C.proof(C.specs[n])
            return hyps[n]
        roots = list(dict.fromkeys(d for p in self.active for d in p.deps if d in C.specs))
        self.static = self.closure(roots, deps)
        todo = [n for n in self.static if self.status.get(n) != "bounded"]
        est = lambda n: self.times.get(n, 6.0)
        todo.sort(key=est, reverse=True)
        heavy = [[n] for n in todo if est(n) >= 7]
        light = [n for n in todo if est(n) < 7]
        nb = max(1, min(len(light), max(JOBS, int(sum(map(est, light)) / 12) + 1))) if light else 0
        bins = [[] for _ in range(nb)]
        for n in light:
            min(bins, key=lambda b: sum(map(est, b)) + len(b) * 0.01).append(n)
        jobs = heavy + sorted(bins, key=lambda b: -sum(map(est, b)))
        log(f"{len(todo)} obligations in {len(jobs)} files, estimated {sum(map(est, todo)):.0f} s of Lean")
        self.texts, self.hyps = texts, hyps
        self.nfile = 0
        with ThreadPoolExecutor(JOBS) as ex:
            fp = ex.submit(self.prop_job)
            fs = [ex.submit(self.chunk, b) for b in jobs]
            for f in fs:
                f.result()
            fp.result()
        # contracts whose file held a failing neighbour: their proofs are good, but there is no object file yet
        again = [n for n in todo if self.status.get(n) == "ok" and n not in self.mod]
        if again:
            need = set(self.trimmed())
            self.chunk([n for n in again if n in need] or again[:1])
    def head(self, imports="import Contracts"):
        return imports + "\nset_option linter.all false\nset_option maxHeartbeats 4000000\nopen Gsv Res\nnamespace Gsv\n"
    def left(self):
        return T0 + BUDGET - time.time()
    def chunk(self, names, retry=True):
        if not names:
            return
        with PLOCK:
            self.nfile += 1
            mod = f"K{self.nfile}"
        txt = self.head()
        pos = []
        for n in names:
            pos.append((txt.count("\n") + 1, n))
            txt += self.texts[n]
        open(f"{self.lean.src}/{mod}.lean", "w").write(txt + "end Gsv\n")
        exp = sum(self.times.get(n, 6.0) for n in names)
        tmo = max(10.0, min(self.left(), 60 + 6 * exp if len(names) > 1 else 240))
        ok, ms, s = self.lean.compile(mod, timeout=tmo)
        if len(names) == 1:
            self.secs[names[0]] = round(s, 2)
        if any(m[0] == "timeout" for m in ms) and len(names) > 1 and self.left() > 20:
            log("splitting", mod)
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda n: self.chunk([n]), names))
            return
        err, used = {}, {}
        for sev, ln, t in ms:
            c = [n for l, n in pos if l <= ln]
            n = c[-1] if c else None
            m = re.match(r"USED Gsv\.(\w+)_ok(.*?)AXIOMS \[(.*?)\]", t, re.S)
            if m:
                used[m[1]] = ([h[2:] for h in m[2].split()], {a.strip() for a in m[3].split(",") if a.strip()})
            elif sev in ("error", "timeout"):
                for k in ([n] if n else names):
                    err.setdefault(k, []).append(t)
        for n in names:
            u = used.get(n)
            if n not in err and u and u[1] <= STD_AX:
                self.status[n] = "ok"
                self.used[n] = u[0]
                if ok:
                    self.mod[n] = mod
            else:
                self.status[n] = "failed"
                self.used[n] = []
                self.failed["contract " + n] = "\n".join(err.get(n, [f"depends on {u and u[1]}"]))[:3000]
                log("FAILED contract", n, "|", " ".join(err.get(n, ["?"]))[:200].replace("\n", " "))
    def prop_job(self):
        self.prelude.need("Prp", "Inst")
        self.pused, self.pok = {}, set()
        txt = self.head("import Contracts\nimport Gsv.Prp")
        pos = []
        for p in self.active:
            if all(d in self.C.specs for d in p.deps):
                pos.append((txt.count("\n") + 1, p.name))
                txt += emit.prop_text(p)
        open(f"{self.lean.src}/Props.lean", "w").write(txt + "end Gsv\n")
        ok, ms, s = self.lean.compile("Props", timeout=max(20, self.left()))
        self.propolean = ok
        err = {}
        for sev, ln, t in ms:
            c = [n for l, n in pos if l <= ln]
            m = re.match(r"USED Gsv\.(\w+)_ok(.*?)AXIOMS \[(.*?)\]", t, re.S)
            if m:
                ax = {a.strip() for a in m[3].split(",") if a.strip()}
                self.pused[m[1]] = [h[2:] for h in m[2].split()]
                if ax <= STD_AX:
                    self.pok.add(m[1])
            elif sev in ("error", "timeout"):
                for k in ([c[-1]] if c else [n for _, n in pos]):
                    err.setdefault(k, []).append(t)
        for _, n in pos:
            if n in err or n not in self.pok:
                self.pok.discard(n)
                self.failed["theorem " + n] = "\n".join(err.get(n, ["not proved"]))[:3000]
                log("FAILED theorem", n, "|", " ".join(err.get(n, ["?"]))[:200].replace("\n", " "))
    def trimmed(self):
        roots = list(dict.fromkeys(d for p in self.active for d in self.pused.get(p.name, p.deps) if d in self.C.specs))
        return self.closure(roots, lambda n: self.used.get(n, []))
    def decide(self):
        """every obligation of the property: contracts in its closure, and those that failed"""
        self.defs()
        self.contracts()
        log(f"{len(self.order)} functions translated, {len(self.tr.opaque)} opaque; {len(self.C.specs)} contracts")
        self.prove()
        trimmed = self.trimmed()
        # only obligations the property's derivation uses count
        bad = {k: v for k, v in self.failed.items() if not k.startswith("contract ") or k[9:] in trimmed or k[9:] not in self.C.specs}
        if not bad:
            self.failed = {}
            trimmed = self.link()
            bad = dict(self.failed)
        self.bounded = [n for n in trimmed if self.status.get(n) == "bounded"]
        self.nob = len(trimmed) + len(self.active) + 1
        self.ndis = (sum(self.status.get(n) == "ok" for n in trimmed) + len(self.pok & {p.name for p in self.active})) + (0 if bad else 1)
        log(f"{len(trimmed)} contracts in the closure, {len(bad)} failed, {len(self.bounded)} bounded; replaying")
        return trimmed, bad
    def where(self, f):
        return f"{self.tr.fns[self.lname[f]]['file']}:{self.tr.fns[self.lname[f]]['line']} {self.tr.fns[self.lname[f]]['path']}"
    def report(self, bad):
        return [{"obligation": k, "functions": [self.where(f) for f in (self.C.byname[k[9:]].fns if k.startswith("contract ") else []) if f in self.lname],
                 "statement": self.C.byname[k[9:]].stmt if k.startswith("contract ") else None, "verifier_output": v} for k, v in bad.items()]
    def link(self):
        """one theorem per property clause, with every contract hypothesis discharged by its proof"""
        order = self.trimmed()
        bounded = [n for n in order if self.status[n] == "bounded"]
        mods = sorted({self.mod[n] for n in order if n in self.mod})
        txt = "".join(f"import {m}\n" for m in ["Props", "Gsv.Inst"] + mods) + "open Gsv\nnamespace Gsv\n"
        hb = "".join(f" (h_{b} : S.{b} E)" for b in bounded)
        ab = "".join(f" h_{b}" for b in bounded)
        ref = lambda d: f"h_{d}" if d in bounded else f"(L_{d} E{ab})"
        for n in order:
            if n not in bounded:
                txt += f"theorem L_{n} (E : Env){hb} : S.{n} E := {n}_ok.used E {' '.join(ref(d) for d in self.used[n])}\n"
        for p in self.active:
            txt += f"theorem {p.name} (E : Env){hb} : P.{p.name} E := {p.name}_ok.used E {' '.join(ref(d) for d in self.pused[p.name])}\n#print axioms {p.name}\n"
        txt += "theorem not_vacuous : Nonempty Env := env_exists\n#print axioms not_vacuous\nend Gsv\n"
        open(f"{self.lean.src}/Link.lean", "w").write(txt)
        ok, ms, s = self.lean.compile("Link", timeout=max(60, self.left()))
        bad = [t for sev, _, t in ms if sev in ("error", "timeout")]
        good = set()
        for sev, _, t in ms:
            m = re.match(r"'Gsv\.(\w+)' (?:depends on axioms: \[(.*?)\]|does not depend)", t, re.S)
            if m and {a.strip() for a in (m[2] or "").split(",") if a.strip()} <= STD_AX:
                good.add(m[1])
        for n in [p.name for p in self.active] + ["not_vacuous"]:
            if n not in good:
                self.failed["link " + n] = "\n".join(bad)[:2000] or "not linked"
        self.bounded = bounded
        return order
    def recheck(self):
        """thorough: an independent kernel pass over every object file of this run"""
        lc = shutil.which("leanchecker", path=self.lean.env["PATH"])
        if not lc:
            return None
        mods = ["Defs", "Contracts", "Props", "Link"] + sorted(set(self.mod.values())) + ["Gsv." + m for m in PRELUDE]
        rc, o, e, s = run([lc] + mods, env=self.lean.env, cwd=self.work, timeout=900)
        return {"leanchecker": rc, "seconds": round(s), "output": (o + e)[-300:], "modules": len(mods)}

TRUSTED = [
    "rustc's type checker and THIR construction (nightly 1.101), which the extractor reads",
    "extract/src/main.rs and gsv/translate.py: the translation of typed bodies into Lean definitions",
    "gsv/models.py and lean/Gsv/{Core,Env,Ser}.lean: meaning given to std, rayon and arkworks calls (field, groups, pairing as a structure Env of laws, not axioms)",
    "the Lean 4.33 kernel with propext, Classical.choice, Quot.sound",
]
ASSUME = [
    "arkworks field, curve and pairing implementations satisfy their algebraic laws and canonical (de)serialization laws (fields of Env; Env is shown inhabited, so the laws are consistent)",
    "usize arithmetic does not overflow (treated as natural numbers; list lengths below 2^64)",
    "rayon's indexed parallel iterators produce results in index order (they are given the meaning of the sequential iterator)",
    "closures passed to iterators are run eagerly and in order; panics are modelled as one outcome, without unwinding effects",
    "a serializer's writer never fails; memory is unlimited",
]

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    known = json.load(open(f"{VERIF}/known-findings.json"))
    work = tempfile.mkdtemp(prefix="gsv-")
    ev = f"{VERIF}/evidence/{pid}.json"
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    os.makedirs(f"{VERIF}/build", exist_ok=True)
    rp_path = f"{VERIF}/build/replay-{pid}.json"
    for f in (ev, rp_path):
        if os.path.exists(f):
            os.unlink(f)
    R = Run(pid, work, tier, seed)
    if not R.props:
        print("no such property", pid)
        return 2
    try:
        replay = None if os.environ.get("GSV_NOREPLAY") else Replay(work, pid)     # without it: for development only
        R.lean = Lean(work)
        R.prelude = Prelude(R.lean)
        with ThreadPoolExecutor(1) as ex:
            R.dump, rel = ex.submit(extract, work).result()
        log("extracted")
        trimmed, bad = R.decide()
        R2, bad2 = None, {}
        if rel is not None:
            # debug assertions change the code: what a release build runs is verified as well
            log("release variant")
            R2 = Run(pid, work, tier, seed)
            os.makedirs(work + "/rel")
            R2.lean, R2.dump, R2.prelude = Lean(work + "/rel"), rel, R.prelude
            for f in os.listdir(R.lean.out + "/Gsv"):
                shutil.copy(f"{R.lean.out}/Gsv/{f}", f"{R2.lean.out}/Gsv/{f}")
            bad2 = R2.decide()[1]
            R.notes += [n + " (release build)" for n in R2.notes if n not in R.notes]
        recheck = R.recheck() if tier == "thorough" and not bad else None
        bounded = R.bounded or R2 and R2.bounded
        if bad or bad2:
            secs = float(os.environ.get("GSV_SEARCH", "150" if tier == "quick" else "600"))
            secs = min(secs, max(60, T0 + 800 - time.time())) if tier == "quick" else secs
        else:
            secs = (90 if bounded else 6) if tier == "quick" else 300
        NONE = {"evaluations": 0, "distinct": 0, "samples": [], "fail": None, "seconds": 0, "error": "off"}
        def search():
            """in the build whose obligations fail, or in both"""
            nonlocal replay
            if not replay:
                return NONE
            r = replay.search(secs, seed) if bad or not bad2 else NONE
            if R2 and not r["fail"]:
                replay = Replay(work, pid, release=True)
                r2 = replay.search(secs if bad2 or bounded else 6, seed)
                r = dict(r2, evaluations=r["evaluations"] + r2["evaluations"], distinct=r["distinct"] + r2["distinct"])
            return r
        rr = search()
        nob, ndis = R.nob + (R2.nob if R2 else 0), R.ndis + (R2.ndis if R2 else 0)
        opq = {R.tr.names[k] for k in R.tr.opaque}
        under = sorted({f for n in trimmed for f in R.C.specs[n].fns[:R.C.specs[n].roots] if R.status.get(n) == "ok"})
        where = R.where
        inl = sorted({g for n in trimmed for g in emit.unspecced_closure(R.tr, R.C.avail, set(R.C.byfn) | set(R.C.specs[n].fns[R.C.specs[n].roots:]), R.C.specs[n].fns[:R.C.specs[n].roots])[0]})
        violated = bool(bad or bad2 or rr["fail"])
        cov = {
            "obligations": nob, "discharged": ndis,
            "obligation_kinds": {"function contracts": len(trimmed), "property theorems": len(R.active), "linking and non-vacuity": 1},
            "checker_cmd": f"lean (4.33.0, kernel) on Defs, Contracts, K*, Props, Link as regenerated by gsv/check.py {pid}; #print axioms on every linked theorem",
            "trusted_base": TRUSTED,
            "theorems": ["Gsv." + p.name for p in R.active],
            "functions_under_contract": [where(f) for f in under],
            "functions_inlined_without_contract": [where(f) for f in inl],
            "contracts": trimmed,
            "bounded_contracts": R.bounded,
            "functions_translated": len(R.order) - len(opq), "functions_opaque": sorted(opq),
            "back_end": "Lean 4 kernel", "solver_seconds": round(R.lean.seconds, 1),
            "bounded_replay": {"what": "the real crate on BLS12-381, property restated over discrete logarithms; bounded, validates the trusted base, proves nothing",
                               "evaluations": rr["evaluations"], "distinct": rr["distinct"], "seconds": rr["seconds"], "samples": rr["samples"][:4], "error": rr["error"]},
            "failed_obligations": sorted(bad) + ["release build: " + k for k in sorted(bad2)],
            "release_build": "the compiler gives the same bodies with debug assertions off" if R2 is None else
                {"what": "the bodies differ with debug assertions off and are verified separately", "obligations": R2.nob, "discharged": R2.ndis, "bounded_contracts": R2.bounded},
            "notes": R.notes,
        }
        if recheck:
            cov["kernel_recheck"] = recheck
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ASSUME + R.notes,
                   "wall_s": round(time.time() - T0, 1), "violations": int(violated)}, open(ev, "w"), indent=1, ensure_ascii=False)
        if os.environ.get("GSV_TIMES"):
            json.dump(R.secs, open(os.environ["GSV_TIMES"], "w"))
        for k in known.get("findings", []):
            if k["property"] == pid:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        print(f"{pid}: {ndis}/{nob} obligations discharged, {len(under)} functions under contract, {rr['evaluations']} replayed cases, {time.time() - T0:.0f} s")
        for n in R.notes:
            print("note:", n)
        if not violated:
            return 0
        for k, v in bad.items():
            print(f"failed obligation: {k}: " + (v.split("\n")[0][:200]))
        for k, v in bad2.items():
            print(f"failed obligation (release build): {k}: " + (v.split("\n")[0][:200]))
        json.dump({"property": pid, "failed_obligations": R.report(bad) + [dict(o, build="release") for o in (R2.report(bad2) if R2 else [])],
                   "failing_input": rr["fail"] and dict(rr["fail"], replay_with=replay.command(rr["fail"])),
                   "searched": {"seconds": rr["seconds"], "evaluations": rr["evaluations"], "seed": seed, "error": rr["error"]}},
                  open(rp_path, "w"), indent=1, ensure_ascii=False)
        if rr["fail"]:
            print("failing input:", rr["fail"]["what"][:600])
            print(f"VIOLATION property={pid} replay={rp_path}")
        else:
            print(f"VIOLATION property={pid} replay={rp_path} no-failing-input-found")
        return 1
    except Broken as ex:
        print("the check cannot run:", ex)
        return 2
    finally:
        killall()
        if not os.environ.get("GSV_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("kept", work)

if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
        sys.stdout.flush()
    finally:
        killall()
    os._exit(rc)
