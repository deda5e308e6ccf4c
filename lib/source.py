"""Schemas of source programs: the whole assembler is analysed on each schema and compared with the reference semantics."""
import os
import pickle
import struct
import traceback

import engine
from common import Problems
from front import *
from refasm import *


class Schema:
    def __init__(self, text, includes=None, note="", facts=None, data=None, paths=None):
        self.text = text
        self.includes = includes or {}
        self.note = note
        self.facts = facts or {}
        self.data = data or {}      # binary files: name -> number of unknown bytes
        self.paths = paths          # expected path resolutions: {(including file, name)}

    @property
    def key(self):
        t = " / ".join(x.strip() for x in self.text.split("\n") if x.strip())
        for k, v in self.includes.items():
            t += " [%s: %s]" % (k, " / ".join(x.strip() for x in v.split("\n") if x.strip()))
        for k, v in self.data.items():
            t += " [%s: %d bytes]" % (k, v)
        return t


def standard_env(F):
    W, E = F.W, F.E
    env = {}
    for n in "xyzwuv":
        env[n] = E.sym(n, W.ty("i32"))
    b = [mk("byte", E.sym("b%d" % k, W.ty("u8"))) for k in range(8)]
    for k in range(7):
        env["s%d" % k] = ("str", S(*b[:k]))
    env["t2"] = ("str", S(*b[5:7]))
    return env


def cast_byte(W, E, n):
    return E.sym(n, W.ty("u8"))


class Judge:
    """compares one analysed schema with the reference"""

    def __init__(self, W, positions=False):
        self.W = W
        self.F = Front(W)
        self.R = Ref(self.F)
        self.env = standard_env(self.F)
        self.positions = positions
        self.rows = 0
        self.cases = 0

    def initial(self, sc):
        st = St()
        for n, r in sc.facts.items():
            st.facts[("r", self.env[n])] = iv(*r)
        return st

    def judge(self, sc):
        """[(what, detail)] problems"""
        F, R, W, E = self.F, self.R, self.W, self.F.E
        data = {k: [cast_byte(W, E, "%s.%d" % (k, i)) for i in range(n)] for k, n in sc.data.items()}
        R.data = data
        rows = F.assemble(sc.text, self.env, self.initial(sc), includes=sc.includes, data=data)
        out = Problems()
        if sc.paths is not None:
            got = {(a, b) for a, b, done in F.resolved if not done}
            if got != set(sc.paths):
                out.append(("paths", "paths are resolved relative to %s, expected %s" % (
                    sorted(("%s: %s" % x) for x in got - set(sc.paths)) or "nothing", sorted(("%s: %s" % x) for x in set(sc.paths) - got))))
        for p in E.panics:
            out.at(p[0])
            if self.feasible(p[0]):
                out.append(("panic", "%s in %s for %s" % (p[1], p[2], self.show(p[0]))))
        out.at(None)
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome at all"))
        for s, v in rows:
            out.at(s)
            self.rows += 1
            if W.variant(v) == "Err":
                e = v.a[2]
                kind = W.variant(e)
                pos = span_of(W, e)
                def goal(x):
                    return kind in x[0] and (not self.positions or not pos or pos[0] in x[1])
                for s2, errs, by in R.outcomes(F.py, "main.s", s, goal):
                    self.cases += 1
                    if any(goal(x) for x in errs):
                        continue
                    if errs and any(kind in x[0] for x in errs):
                        out.append(("position", "%s reported at %s, expected one of %s; %s" % (
                            kind, pos[0], sorted(p for x in errs if kind in x[0] for p in x[1]), self.show(s2))))
                    elif errs:
                        out.append(("error kind", "reported as %s, expected one of %s; %s" % (kind or pretty(e)[:200], sorted(set(k for x in errs for k in x[0])), self.show(s2))))
                    else:
                        out.append(("rejected", "rejected with %s although the program is correct; %s" % (kind or pretty(e)[:200], self.show(s2))))
            elif W.variant(v) == "Ok":
                got = image_bytes(F, v)
                for s2, errs, by in R.outcomes(F.py, "main.s", s, lambda x: True):
                    self.cases += 1
                    if errs:
                        out.append(("accepted", "accepted although it has an error: %s; %s" % (sorted(errs[0][0]), self.show(s2))))
                    elif got is None:
                        out.unknown("image", "the image cannot be determined: %s" % pretty(v)[:300])
                    elif len(got) != len(by):
                        out.append(("length", "%d bytes, expected %d; %s" % (len(got), len(by), self.show(s2))))
                    else:
                        for i, (g, w) in enumerate(zip(got, by)):
                            if not self.same(s2, g, w):
                                out.append(("byte %d" % i, "is %s, expected %s; %s" % (pretty(g)[:200], self.showw(w), self.show(s2))))
                                break
            else:
                out.unknown("outcome", "cannot be determined: %s" % pretty(v)[:300])
        return out

    def same(self, st, g, w):
        E, R = self.F.E, self.R
        if bits(g, 8, E, st) == R.want_bits(st, w):
            return True
        r = E.rng(st, g).single()
        if r is not None and type(w) is N:
            rw = E.rng(st, w).single()
            if rw is not None and (r - rw) % 256 == 0:
                return True
        return False

    def feasible(self, st):
        return all(not (k[0] == "r" and type(v) is ISet and v.empty()) for k, v in st.facts.items())

    def showw(self, w):
        return pretty(w)[:200] if type(w) is N else "%s of %s" % (w[0], ", ".join(pretty(x) if type(x) is N else str(x) for x in (w[2] if len(w) > 2 else w[1:])))

    def show(self, st):
        return str(facts(st))[:400]


def run_schemas(W, R, schemas, positions=False, jobs=None, make=None, where="asm::assemble_file", per=60):
    """judge all schemas (in parallel); one obligation per schema"""
    keys = set()
    todo = []
    for s in schemas:
        if s.key not in keys:
            keys.add(s.key)
            todo.append(s)
    jobs = jobs or max(1, min(8, os.cpu_count() or 1, len(todo)))
    pipes = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = []
            extra = {}
            try:
                J = None
                for n, sc in enumerate(todo[j::jobs]):
                    if J is None or n % per == per - 1:
                        if J is not None:
                            collect(J, extra)
                        J = make() if make else Judge(W, positions)
                    try:
                        res.append((sc.key, J.judge(sc)))
                    except Anchor as e:
                        res.append((sc.key, [("analysis", str(e), ["analysis: " + str(e)])]))
                        J = None
                    except engine.Imprecise as e:
                        res.append((sc.key, [("analysis", "too imprecise: " + str(e), ["analysis: " + str(e)])]))
                        J = None
                    except Exception:
                        res.append((sc.key, [("analysis", traceback.format_exc()[-1500:], ["analysis: " + traceback.format_exc()[-600:]])]))
                        J = None
                if J is not None:
                    collect(J, extra)
                extra["seen"] = engine.SEEN
                data = pickle.dumps((res, extra))
            except BaseException:
                data = pickle.dumps(([("worker", [("analysis", traceback.format_exc()[-1500:], ["analysis: " + traceback.format_exc()[-600:]])])], {}))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    results = {}
    fns = set()
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            R.bad("analysis worker", "an analysis process died", apx=["an analysis process died"])
            continue
        res, extra = pickle.loads(data)
        for k, pr in res:
            results[k] = pr
        R.functions |= extra.get("functions", set())
        R.sites = getattr(R, "sites", set()) | extra.get("sites", set())
        engine.SEEN |= extra.get("seen", set())
        for n in ("rows", "cases", "states"):
            R.count({"rows": "paths", "cases": "path_cases", "states": "abstract_states"}[n], extra.get(n, 0))
    for s in todo:
        pr = results.get(s.key)
        if pr is None:
            R.n += 1
            R.bad(s.key, "not analysed", apx=["an analysis process died"])
        elif not pr:
            R.ob(s.key, True)
        else:
            R.n += 1
            seen = set()
            for what, detail, apx in pr:
                if what not in seen or not apx:
                    seen.add(what)
                    R.bad("%s: %s" % (s.key, what), detail, where, apx)
    R.count("program_schemas", len(todo))
    return len(todo)


def collect(J, extra):
    extra.setdefault("functions", set()).update(J.F.E.analysed)
    extra.setdefault("sites", set()).update(getattr(J, "sites", ()))
    for n, v in (("rows", J.rows), ("cases", J.cases), ("states", J.F.E.nstates)):
        extra[n] = extra.get(n, 0) + v
