"""Build of the resolved program, reporting, known findings, evidence."""
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WB_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class BuildFailure(Exception):
    pass


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def repo_sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "target", "tests", "docs")]
        for f in files:
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                out.append(os.path.join(base, f))
    return out


def sh(cmd, env=None, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def driver():
    src = os.path.join(VERIF, "driver", "wbdump.rs")
    out = os.path.join(CACHE, "wbdump-" + _hash([src]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp])
        if r.returncode:
            raise BuildFailure("analysis driver does not build:\n" + r.stdout[-4000:])
        os.rename(tmp, out)
    return out


def dump():
    """path of the MIR dump of REPO's current sources"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = _hash(repo_sources()) + "-" + os.path.basename(drv)[-8:]
        out = os.path.join(CACHE, "dump-%s.json" % key)
        if os.path.exists(out):
            return out
        for old in glob.glob(os.path.join(CACHE, "dump-*.json")):
            os.unlink(old)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        td = os.environ.get("WB_TARGET", os.path.join(CACHE, "target"))
        for pat in ("debug/.fingerprint/waterbear-*", "debug/build/waterbear", "debug/build/waterbear-instruction-derive", "debug/incremental/waterbear-*"):
            for p in glob.glob(os.path.join(td, pat)):
                sh(["rm", "-rf", p])
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=sysroot + "/lib", WBDUMP_CRATE="waterbear", WBDUMP_OUT=tmp,
                   RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS="-Zallow-features=", CARGO_TARGET_DIR=td)
        r = sh(["cargo", "+nightly", "check", "--offline", "--lib"], env=env, cwd=REPO)
        if r.returncode or not os.path.exists(tmp):
            raise BuildFailure("cargo check of %s failed:\n%s" % (REPO, r.stdout[-4000:]))
        os.rename(tmp, out)
        return out


def known():
    """{(property, key): description}"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                head, _, desc = l[len("finding: "):].partition(" | ")
                prop, _, key = head.partition(" key=")
                out[(prop.replace("property=", "").strip(), key.strip())] = desc
    return out


class Problems(list):
    """(what, detail, approximations): failed obligations with what was approximated on their path"""
    cur = None

    def at(self, st):
        self.cur = st

    def unknown(self, what, detail):
        list.append(self, (what, detail, ["the result cannot be determined"]))

    def append(self, x):
        list.append(self, tuple(x[:2]) + (sorted(self.cur.apx) if self.cur is not None else unreviewed(),))


def unreviewed():
    import engine
    return sorted(engine.SEEN - engine.REVIEWED)


def reviewed(prop):
    out = set()
    p = os.path.join(VERIF, "lib", "approximations.txt")
    if os.path.exists(p) and not os.environ.get("WB_RECORD"):
        for l in open(p):
            a, _, b = l.rstrip("\n").partition("\t")
            if a == prop:
                out.add(b)
    return out


def parallel(R, items, fn, jobs=None):
    """fn(R', item) for every item, in several processes; what they report is merged into R. fn returns a number; -> their sum"""
    import pickle
    import traceback
    import engine
    items = list(items)
    jobs = jobs or max(1, min(8, os.cpu_count() or 1, len(items)))
    pipes = []
    sys.stdout.flush()
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            R.n = R.ok = 0
            R.viol, R.undecided, R.samples, R.counts, R.functions, R.seen = [], [], [], {}, set(), set()
            engine.SEEN = set()
            total = 0
            for it in items[j::jobs]:
                try:
                    total += fn(R, it) or 0
                except Exception as e:
                    R.n += 1
                    R.cur = None
                    R.bad("analysis of %s" % (it,), traceback.format_exc()[-800:], apx=["analysis: %s" % e])
            data = pickle.dumps((total, R.n, R.ok, R.viol, R.undecided, R.samples[:2], R.counts, R.functions, engine.SEEN))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    total = 0
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            R.n += 1
            R.bad("analysis worker", "an analysis process died", apx=["an analysis process died"])
            continue
        t, n, ok, viol, und, samples, counts, fns, seen = pickle.loads(data)
        total += t
        R.n += n
        R.ok += ok
        for x in viol:
            if x[0] not in R.seen:
                R.seen.add(x[0])
                R.viol.append(x)
        R.undecided += und
        R.samples = (R.samples + samples)[:12]
        for k, v in counts.items():
            R.count(k, v)
        R.functions |= fns
        engine.SEEN |= seen
    return total


class Report:
    def __init__(self, prop, tier):
        import engine
        engine.REVIEWED = reviewed(prop)
        engine.SEEN = set()
        self.undecided = []
        self.cur = None
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.n = 0
        self.ok = 0
        self.viol = []
        self.seen = set()
        self.samples = []
        self.counts = {}
        self.functions = set()
        self.assume = []
        self.rule = ""
        self.known_hit = []

    def ob(self, key, ok, detail="", where=""):
        """one obligation; key is stable (no line numbers)"""
        self.n += 1
        if ok:
            self.ok += 1
            if len(self.samples) < 12 and (self.n % 37 == 1):
                self.samples.append(key + (": " + detail if detail else ""))
            return True
        self.bad(key, detail, where)
        return False

    def at(self, st):
        """the obligations that follow are about this state (None: about the whole analysis)"""
        self.cur = st

    def bad(self, key, detail="", where="", apx=None):
        """a failed obligation; undecided when something was approximated that the reviewed analysis does not approximate"""
        if apx is None:
            apx = sorted(self.cur.apx) if self.cur is not None else unreviewed()
        if key in self.seen:
            return
        if apx:
            self.undecided.append((key, detail, apx))
            return
        self.seen.add(key)
        self.viol.append((key, detail, where))

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def floor(self, name, n, minimum):
        self.counts[name] = n
        self.ob("floor:" + name, n >= minimum, "%s: %d analysed, at least %d expected" % (name, n, minimum))

    def analysed(self, E):
        self.functions |= set(E.analysed)
        self.counts["abstract_states"] = self.counts.get("abstract_states", 0) + E.nstates

    def finish(self):
        kn = known()
        new = []
        for key, detail, where in self.viol:
            if (self.prop, key) in kn:
                self.known_hit.append(key)
                print("KNOWN-FINDING: property=%s %s -- %s" % (self.prop, key, kn[(self.prop, key)]))
            else:
                new.append((key, detail, where))
        und = {}
        for key, detail, apx in self.undecided:
            if key not in self.seen:
                und.setdefault(key, (detail, apx))
        for key, (detail, apx) in list(und.items())[:8]:
            print("undecided: %s -- depends on %s" % (key, "; ".join(apx[:4])[:600]))
        if os.environ.get("WB_RECORD"):
            import engine
            with open(os.environ["WB_RECORD"], "a") as f:
                for x in engine.SEEN:
                    f.write("%s\t%s\n" % (self.prop, x))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "obligations": self.n, "discharged": self.ok, "samples": self.samples or ["none"],
                "explanation": self.rule,
                "counts": self.counts,
                "functions_analysed": sorted(f for f in self.functions if "waterbear" in f)[:80],
                "functions_analysed_total": len(self.functions),
                "known_findings_hit": self.known_hit,
                "undecided": len(und), "undecided_samples": [[k, x[1][:4]] for k, x in list(und.items())[:12]],
            },
            "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 3), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % self.prop)
        if not new:
            if os.path.exists(rp):
                os.unlink(rp)
            if und and not self.ok:
                print("UNDECIDED property=%s: no obligation could be decided" % self.prop)
                return 2
            print("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d known=%d wall=%.1fs" % (
                self.prop, self.n, self.ok, len(und), len(self.functions), len(self.known_hit), time.time() - self.t0))
            return 0
        with open(rp, "w") as f:
            for key, detail, where in new:
                f.write("%s\n  at: %s\n  %s\n" % (key, where or "-", detail))
        for key, detail, where in new[:20]:
            print("violated: %s%s\n    %s" % (key, (" [" + where + "]") if where else "", detail[:1200]))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1
