"""Files: where an included path leads, which file an id denotes."""
from wb import *
import models as M
import strs

PRED = ("is_absolute", "is_dir", "is_file", "is_relative", "exists")


def path_models(W):
    def s_of(E, st, v):
        return M.S_of(E, st, v)

    def pred(E, st, f, vals, at, dt, fr, uid):
        s = s_of(E, st, vals[0])
        n = f.sname.split("::")[-1]
        if s is None:
            return None
        if n == "is_relative":
            return [(st, engine.neg_cond(mk("pred", "is_absolute", s)))]
        return [(st, mk("pred", n, s))]

    def join(E, st, f, vals, at, dt, fr, uid):
        a, b = s_of(E, st, vals[0]), s_of(E, st, vals[1])
        return None if a is None or b is None else [(st, S(mk("join", a, b)))]

    def parent(E, st, f, vals, at, dt, fr, uid):
        a = s_of(E, st, vals[0])
        if a is None:
            return None
        return [(st, M.some(E, dt, S(mk("parent", a))))]
    return {**strs.str_models(), r"^std::path::Path::(%s)$" % "|".join(PRED): pred, r"^std::path::Path::join$": join, r"^std::path::Path::parent$": parent}


def instances(W, name):
    fs = [f for f in W.P.F if f.blocks is not None and f.sname == name]
    if not fs:
        raise Anchor("function not found: " + name)
    return fs


def source_file(W, E, k, name, contents):
    return W.struct("files::SourceFile", E, id=W.adt("files::FileID", "FileID", I(k)), name=name, contents=contents)


def r03(W, R, tier):
    R.rule = ("SourceFiles::path is abstractly interpreted with unknown paths (every instance): on every path through it the result must be the absolute name itself, or the name "
              "joined to the directory of the including file (the working directory for the main file), except where only the fallback relative to the working directory exists; "
              "SourceFiles::load with 0..3 known files: a path already loaded yields that file, any other is read from exactly that path and gets the next id, other files stay "
              "unchanged, read errors are passed on, and for_id gives the file with that id.")
    E = W.engine(force_inline=[r"waterbear"], models=path_models(W), opaque=[r"std::io::_eprint", r"std::io::_print"])
    wd, root, name = (S(mk("sym", n)) for n in ("wd", "root", "name"))
    n = 0
    cases = 0
    for f in instances(W, "waterbear::files::SourceFiles::path"):
        for has in (False, True):
            sf = W.struct("files::SourceFiles", E, working_dir=wd, files=seq())
            oty = f.locals[2]
            opt = mk("adt", oty, W.P.variant(oty, "Some"), root) if has else mk("adt", oty, W.P.variant(oty, "None"))
            E.nstates = 0
            rows = E.analyse(f, [W.sref(sf), opt, name])
            R.analysed(E)
            key = "path %s root" % ("with" if has else "without")
            R.ob(key + ": no panic", not E.panics, "; ".join(p[1] for p in E.panics)[:300], f.name)
            R.ob(key + ": outcome", bool(rows), "no outcome", f.name)
            for st, v in rows:
                R.at(st)
                cases += 1
                v = dvv(E, st, v)
                ok, why = path_ok(E, st, v, wd, root, name, has)
                if not ok:
                    R.bad("%s: %s" % (key, why), "the result is %s; %s" % (pretty(v)[:200], facts(st)), f.name)
                R.n += 1
                R.ok += ok
            R.at(None)
            n += 1
    R.floor("path_instances", n, 2)
    R.floor("path_cases", cases, 10)

    # load
    content = {}

    def path_stub(E, st, f, vals, at, dt, fr, uid):
        return [(st, S(mk("resolved", S_or(E, st, vals[1]), S_or(E, st, vals[2]))))]

    def S_or(E, st, v):
        return M.S_of(E, st, v) or E.snapshot(st, v)

    def load_stub(E, st, f, vals, at, dt, fr, uid):
        s = M.S_of(E, st, vals[0])
        if s is None:
            raise Anchor("the loaded path is not a path value")
        s2 = st.copy()
        s2.eff = s2.eff + (("load", s),)
        c = mk("rd", s)
        out = []
        for tr, s3 in E.fork(s2, mk("pred", "readable", s)):
            if tr:
                out.append((s3, mk("adt", dt, W.P.variant(dt, "Ok"), S(c))))
            else:
                out.append((s3, mk("adt", dt, W.P.variant(dt, "Err"), mk("sym", "loaderr"))))
        return out
    m = path_models(W)
    m.update({r"^waterbear::files::SourceFiles::path$": path_stub, r"^waterbear::files::load_file$": load_stub})
    E = W.engine(force_inline=[r"waterbear"], models=m)
    cases = 0
    for f in instances(W, "waterbear::files::SourceFiles::load"):
        for k in range(0, 5 if tier == "thorough" else 4):
            names = [S(mk("sym", "n%d" % i)) for i in range(k)]
            old = [source_file(W, E, i, names[i], S(mk("sym", "c%d" % i))) for i in range(k)]
            st = St()
            st.mem[("X", "files")] = W.struct("files::SourceFiles", E, working_dir=wd, files=seq(*[mk("e", x) for x in old]))
            oty = f.locals[2]
            opt = mk("adt", oty, W.P.variant(oty, "Some"), root)
            E.nstates = 0
            rows = E.analyse(f, [mk("ref", ("X", "files"), ()), opt, name], st)
            R.analysed(E)
            key = "load with %d files" % k
            R.ob(key + ": no panic", not E.panics, "; ".join(p[1] for p in E.panics)[:300], f.name)
            want = S(mk("resolved", E.snapshot(St(), opt), name))
            seen = set()
            for s, v in rows:
                R.at(s)
                cases += 1
                R.n += 1
                why = load_ok(W, E, s, v, old, names, k, want_paths(E, s, name), seen)
                if why:
                    R.bad("%s: %s" % (key, why), "result %s; %s" % (pretty(E.snapshot(s, v))[:300], str(facts(s))[:400]), f.name)
                else:
                    R.ok += 1
            R.at(None)
            R.ob(key + ": outcomes", seen == {"new", "error"} | ({"old"} if k else set()), "outcomes found: %s" % sorted(seen), f.name)
    R.floor("load_cases", cases, 6)

    # for_id
    E = W.engine(force_inline=[r"waterbear"])
    f = W.fn("waterbear::files::SourceFiles::for_id")
    for k in range(1, 4):
        old = [source_file(W, E, i, S(mk("sym", "n%d" % i)), S(mk("sym", "c%d" % i))) for i in range(k)]
        for i in range(k + 1):
            rows = E.analyse(f, [W.sref(W.struct("files::SourceFiles", E, working_dir=wd, files=seq(*[mk("e", x) for x in old]))), W.adt("files::FileID", "FileID", I(i))])
            R.analysed(E)
            ok = len(rows) == 1 and not E.panics
            if ok:
                v = rows[0][1]
                if i < k:
                    ok = W.variant(v) == "Some" and E.snapshot(rows[0][0], v.a[2]) is old[i]
                else:
                    ok = W.variant(v) == "None"
            R.ob("for_id %d of %d" % (i, k), ok, "; ".join(pretty(v)[:200] for s, v in rows), f.name)


def dvv(E, st, v):
    return M.S_of(E, st, v) or v


def path_ok(E, st, v, wd, root, name, has):
    def d(p, x):
        return E.decide(st, mk("pred", p, x))
    if not has:
        good = v is S(mk("join", wd, name))
        return good or (v is name and d("is_absolute", name) is True), "not relative to the working directory"
    ab = d("is_absolute", name)
    cands = []
    if ab is not False:
        cands.append(name)
    if ab is not True:
        isd = d("is_dir", root)
        if isd is not False:
            cands.append(S(mk("join", root, name)))
        if isd is not True:
            cands.append(S(mk("join", S(mk("parent", root)), name)))
    if len(cands) == 1 and v is cands[0]:
        return True, ""
    # join with an absolute name is that name
    if ab is None and v in cands[1:] and len(cands) == 2:
        return True, ""
    if v is name and ab is not True and d("is_file", name) is True and all(d("is_file", c) is False for c in cands if c is not name):
        return True, ""         # documented only by its warning: nothing at the right place, fall back
    return False, "not relative to the including file"


def want_paths(E, st, name):
    return name


def load_ok(W, E, s, v, old, names, k, name, seen):
    files = E.load(s, (("X", "files"), ()))
    fl = files.a[2:][[x[0] for x in W.T[files.a[0]]["variants"][0]["fields"]].index("files")]
    now = [p.a[0] if p.op == "e" else None for p in fl.a] if fl.op == "seq" else None
    if now is None or now[:k] != old:
        return "files already loaded are changed"
    loads = [e[1] for e in s.eff if e[0] == "load"]
    res = {x for x in subterms(v) if False}
    if W.variant(v) == "Err":
        seen.add("error")
        if len(loads) != 1 or not is_resolved(loads[0], name):
            return "an error without reading the resolved path"
        if E.decide(s, mk("pred", "readable", loads[0])) is not False or not any(x is mk("sym", "loaderr") for x in subterms(v)):
            return "an error although the file could be read, or another error"
        if len(now) != k:
            return "a file is added although it could not be read"
        return None
    if W.variant(v) != "Ok":
        return "undetermined outcome"
    got = E.snapshot(s, v.a[2])
    if loads:
        seen.add("new")
        if len(loads) != 1 or not is_resolved(loads[0], name):
            return "another path is read"
        if len(now) != k + 1:
            return "the file is not remembered exactly once"
        want = source_file(W, E, k, loads[0], S(mk("rd", loads[0])))
        if E.snapshot(s, now[k]) is not want:
            return "the new file is recorded with a wrong id, name or contents"
        if got is not want:
            return "the new file is not the one returned"
        if any(E.decide(s, M.streq(E, n, loads[0])) is not False for n in names):
            return "a file already loaded is read again"
        return None
    seen.add("old")
    hit = [i for i, n in enumerate(names) if got is old[i]]
    if len(hit) != 1:
        return "the returned file is none of the loaded ones"
    if not any(x.op == "resolved" for k2 in s.facts for x in (subterms(k2[1]) if isinstance(k2[1], N) else ())) or not eq_known(E, s, names[hit[0]], name):
        return "a loaded file is returned for another path"
    return None if len(now) == k else "a file is added for nothing"


def is_resolved(p, name):
    return p.op == "S" and len(p.a) == 1 and type(p.a[0]) is N and p.a[0].op == "resolved" and p.a[0].a[1] is name


def eq_known(E, st, n, name):
    for k, v in st.facts.items():
        if k[0] == "b" and v and isinstance(k[1], N) and k[1].op == "streqg" and n in k[1].a and any(is_resolved(x, name) for x in k[1].a):
            return True
    return False
