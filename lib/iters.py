"""Iterators as values: one abstract `next` for the library's iterator adaptors, and every consumer defined by it.

An iterator whose elements are all known one by one (a literal sequence, a concrete range, and any adaptor over such) is
advanced here; anything else raises Unknown and is left to the analysis of the library's own code or to the summaries of
sequences of unknown length in models.py."""
import re

from terms import *
import engine as G


class Unknown(Exception):
    pass


class It:
    """one engine's view"""

    def __init__(self, E, fr, uid):
        self.E, self.fr, self.uid = E, fr, uid
        self.n = 0

    # ------------------------------------------------------------ values
    def name(self, v):
        return self.E.T[v.a[0]]["name"].split("::")[-1] if v.op == "adt" else None

    def fields(self, v):
        return self.E.T[v.a[0]]["variants"][v.a[1]]["fields"]

    def fidx(self, v, name):
        for i, f in enumerate(self.fields(v)):
            if f[0] == name:
                return i
        raise Unknown(name)

    def get(self, v, name):
        i = self.fidx(v, name)
        if len(v.a) <= 2 + i:
            raise Unknown(name)
        return v.a[2 + i]

    def put(self, v, name, x):
        i = self.fidx(v, name)
        a = list(v.a)
        a[2 + i] = x
        return mk("adt", *a)

    def fty(self, v, name):
        return self.fields(v)[self.fidx(v, name)][1]

    def some(self, ti, v):
        return mk("adt", ti, self.E.P.variant(ti, "Some"), v)

    def none(self, ti):
        return mk("adt", ti, self.E.P.variant(ti, "None"))

    def opt(self, st, v, ti=None):
        """[(st, payload or None)] for an Option value"""
        if v.op == "adt":
            return [(st, v.a[2] if len(v.a) > 2 else None)]
        raise Unknown("option")

    def int(self, v):
        if v.op != "i":
            raise Unknown("count")
        return v.a[0]

    def wrap(self, v):
        return mk("ref", ("V", v), ())

    def tick(self):
        self.n += 1
        if self.n > 20000:
            raise Unknown("length")
        return self.E.uid("itc", self.uid, self.n)

    # ------------------------------------------------------------ closures
    def apply(self, st, fv, args):
        """call a closure held by value or by reference: [(st, closure', result)]"""
        E = self.E
        u = self.tick()
        v = fv
        if v.op == "clo":
            o = ("X", "itf", u)
            s = st.copy()
            s.mem[o] = v
            out = []
            for s2, r in E.call_value(s, mk("ref", o, ()), args, u, self.fr):
                s2 = s2.copy()
                nv = s2.mem.pop(o, v)
                out.append((s2, nv, r))
            return out
        return [(s2, fv, r) for s2, r in E.call_value(st, v, args, u, self.fr)]

    # ------------------------------------------------------------ sources
    def source(self, st, v):
        """IntoIterator::into_iter on a value"""
        if v.op == "seq":
            return mk("it", "val", v, I(0))
        if v.op == "ref":
            x = self.E.load(st, (v.a[0], v.a[1]))
            if x.op == "seq":
                return mk("it", "ref", x, I(0))
            return v
        nm = self.name(v)
        if nm == "Option":
            return mk("it", "val", seq(*[mk("e", x) for x in v.a[2:3]]), I(0))
        return v

    # ------------------------------------------------------------ one step
    def step(self, st, v, back=False):
        """[(st, iterator', element or None)]"""
        E = self.E
        if v.op == "ref":
            x = E.load(st, (v.a[0], v.a[1]))
            out = []
            for s, nx, e in self.step(st, x, back):
                s = s.copy()
                E.store(s, (v.a[0], v.a[1]), nx)
                out.append((s, v, e))
            return out
        if v.op == "box":
            return [(s, mk("box", nx), e) for s, nx, e in self.step(st, v.a[0], back)]
        if v.op == "it":
            return self.step_seq(st, v, back)
        if v.op != "adt":
            raise Unknown(v.op)
        m = getattr(self, "s_" + self.name(v), None)
        if m is None:
            return self.user(st, v, back)
        return m(st, v, back)

    def user(self, st, v, back):
        """an iterator defined elsewhere: analyse its own `next`"""
        E = self.E
        f = None
        for g in E.P.F:
            if g.sname.endswith("as std::iter::Iterator>::next") and g.blocks is not None and E.T[g.locals[1]].get("of") == v.a[0]:
                f = g
                break
        if f is None or back or f in E.stack:
            raise Unknown(self.name(v))
        u = self.tick()
        o = ("X", "itu", u)
        s = st.copy()
        s.mem[o] = v
        out = []
        for s2, r in E.run(f, [mk("ref", o, ())], s, u):
            s2 = s2.copy()
            nv = s2.mem.pop(o)
            for s3, x in self.opt(s2, r):
                out.append((s3, nv, x))
        return out

    def step_seq(self, st, v, back):
        E = self.E
        mode, sq, pos = v.a
        if pos is not I(0):
            raise Unknown("position")
        parts = list(sq.a)
        if not parts:
            E.conc = True
            return [(st, v, None)]
        p = parts[-1 if back else 0]
        if p.op == "e":
            x = p.a[0]
            rest = parts[:-1] if back else parts[1:]
        elif p.op == "rep" and p.a[1].op == "i":
            n = p.a[1].a[0]
            rest = parts[:-1] if back else parts[1:]
            if n <= 0:
                return self.step_seq(st, mk("it", mode, seq(*rest), pos), back)
            x = p.a[0]
            if n > 1:
                q = mk("rep", x, I(n - 1))
                rest = rest + [q] if back else [q] + rest
        else:
            raise Unknown("sequence of unknown length")
        E.conc = True
        if mode == "ref":
            x = self.wrap(x)
        return [(st, mk("it", mode, seq(*rest), pos), x)]

    def s_Range(self, st, v, back):
        E = self.E
        lo, hi = self.get(v, "start"), self.get(v, "end")
        d = E.decide(st, E.cond_in(sub(hi, lo), iv(1, G.INF)))
        if d is None or sub(hi, lo).op != "i":
            raise Unknown("range")
        E.conc = True
        if not d:
            return [(st, v, None)]
        if back:
            x = sub(hi, I(1))
            return [(st, self.put(v, "end", x), x)]
        return [(st, self.put(v, "start", add(lo, I(1))), lo)]

    def s_RangeInclusive(self, st, v, back):
        E = self.E
        lo, hi, ex = self.get(v, "start"), self.get(v, "end"), self.get(v, "exhausted")
        d = sub(hi, lo)
        if d.op != "i" or ex.op != "i":
            raise Unknown("range")
        E.conc = True
        if ex.a[0] or d.a[0] < 0:
            return [(st, v, None)]
        if d.a[0] == 0:
            return [(st, self.put(v, "exhausted", I(1)), lo)]
        if back:
            return [(st, self.put(v, "end", sub(hi, I(1))), hi)]
        return [(st, self.put(v, "start", add(lo, I(1))), lo)]

    def s_RangeFrom(self, st, v, back):
        lo = self.get(v, "start")
        return [(st, self.put(v, "start", add(lo, I(1))), lo)]

    def s_Rev(self, st, v, back):
        return [(s, self.put(v, "iter", nx), e) for s, nx, e in self.step(st, self.get(v, "iter"), not back)]

    def s_Map(self, st, v, back):
        out = []
        for s, nx, e in self.step(st, self.get(v, "iter"), back):
            w = self.put(v, "iter", nx)
            if e is None:
                out.append((s, w, None))
            else:
                for s2, nf, r in self.apply(s, self.get(v, "f"), [e]):
                    out.append((s2, self.put(w, "f", nf), r))
        return out

    def s_Inspect(self, st, v, back):
        out = []
        for s, nx, e in self.step(st, self.get(v, "iter"), back):
            w = self.put(v, "iter", nx)
            if e is None:
                out.append((s, w, None))
            else:
                for s2, nf, r in self.apply(s, self.get(v, "f"), [self.wrap(e)]):
                    out.append((s2, self.put(w, "f", nf), e))
        return out

    def filtered(self, st, v, back, fname, test):
        """skip elements until the test accepts one"""
        out, live = [], [(st, v)]
        while live:
            nxt = []
            for s, w in live:
                for s1, nx, e in self.step(s, self.get(w, "iter"), back):
                    w1 = self.put(w, "iter", nx)
                    if e is None:
                        out.append((s1, w1, None))
                        continue
                    for s2, nf, r in self.apply(s1, self.get(w1, fname), [test(e)]):
                        w2 = self.put(w1, fname, nf)
                        for s3, keep in self.verdict(s2, r, e):
                            if keep is None:
                                nxt.append((s3, w2))
                            else:
                                out.append((s3, w2, keep))
            live = nxt
        return out

    def verdict(self, st, r, e):
        if r.op == "adt":
            return self.opt(st, r)
        return [(s, e if tr else None) for tr, s in self.E.fork(st, r)]

    def s_Filter(self, st, v, back):
        return self.filtered(st, v, back, "predicate", self.wrap)

    def s_FilterMap(self, st, v, back):
        return self.filtered(st, v, back, "f", lambda e: e)

    def size(self, st, v):
        """number of remaining elements of an iterator that can be counted without effects"""
        if v.op == "it":
            n = 0
            for p in v.a[1].a:
                if p.op == "e":
                    n += 1
                elif p.op == "rep" and p.a[1].op == "i":
                    n += p.a[1].a[0]
                else:
                    raise Unknown("length")
            return n
        nm = self.name(v)
        if nm in ("Map", "Enumerate", "Rev", "Inspect"):
            return self.size(st, self.get(v, "iter"))
        if nm in ("Cloned", "Copied"):
            return self.size(st, self.get(v, "it"))
        if nm == "Range":
            d = sub(self.get(v, "end"), self.get(v, "start"))
            return max(0, self.int(d))
        if nm == "RangeInclusive":
            return max(0, self.int(sub(self.get(v, "end"), self.get(v, "start"))) + 1) if not self.int(self.get(v, "exhausted")) else 0
        if nm == "Take":
            return min(self.int(self.get(v, "n")), self.size(st, self.get(v, "iter")))
        if nm == "Skip":
            return max(0, self.size(st, self.get(v, "iter")) - self.int(self.get(v, "n")))
        if nm == "Zip":
            return min(self.size(st, self.get(v, "a")), self.size(st, self.get(v, "b")))
        raise Unknown("length of " + str(nm))

    def s_Enumerate(self, st, v, back):
        out = []
        k = self.get(v, "count")
        n = self.size(st, self.get(v, "iter")) if back else None
        for s, nx, e in self.step(st, self.get(v, "iter"), back):
            w = self.put(v, "iter", nx)
            if e is None:
                out.append((s, w, None))
            elif back:
                out.append((s, w, mk("tup", add(k, I(n - 1)), e)))
            else:
                out.append((s, self.put(w, "count", add(k, I(1))), mk("tup", k, e)))
        return out

    def s_Zip(self, st, v, back):
        if back:
            raise Unknown("zip")
        out = []
        if self.get(v, "index").op == "i" and self.get(v, "index").a[0] != 0:
            raise Unknown("zip")
        for s, na, x in self.step(st, self.get(v, "a")):
            w = self.put(v, "a", na)
            if x is None:
                out.append((s, w, None))
                continue
            for s2, nb, y in self.step(s, self.get(v, "b")):
                out.append((s2, self.put(w, "b", nb), None if y is None else mk("tup", x, y)))
        return out

    def s_Chain(self, st, v, back):
        order = ("b", "a") if back else ("a", "b")
        out, live = [], [(st, v)]
        for k in order:
            nxt = []
            for s, w in live:
                o = self.get(w, k)
                ti = self.fty(w, k)
                for s1, inner in self.opt(s, o):
                    if inner is None:
                        nxt.append((s1, w))
                        continue
                    for s2, nx, e in self.step(s1, inner, back):
                        if e is None:
                            nxt.append((s2, self.put(w, k, self.none(ti))))
                        else:
                            out.append((s2, self.put(w, k, self.some(ti, nx)), e))
            live = nxt
        return out + [(s, w, None) for s, w in live]

    def s_Skip(self, st, v, back):
        n = self.int(self.get(v, "n"))
        if back:
            if self.size(st, self.get(v, "iter")) <= n:
                return [(st, v, None)]
            return [(s, self.put(v, "iter", nx), e) for s, nx, e in self.step(st, self.get(v, "iter"), True)]
        live = [(st, self.get(v, "iter"))]
        out = []
        for _ in range(n):
            nxt = []
            for s, i in live:
                for s2, nx, e in self.step(s, i):
                    if e is None:
                        out.append((s2, self.put(self.put(v, "iter", nx), "n", I(0)), None))
                    else:
                        nxt.append((s2, nx))
            live = nxt
        for s, i in live:
            for s2, nx, e in self.step(s, i):
                out.append((s2, self.put(self.put(v, "iter", nx), "n", I(0)), e))
        return out

    def s_Take(self, st, v, back):
        n = self.get(v, "n")
        if back:
            raise Unknown("take")
        c = self.E.cond_in(n, iv(1, G.INF))
        d = self.E.decide(st, c)
        if d is None:
            raise Unknown("take")
        if not d:
            self.E.conc = True
            return [(st, v, None)]
        return [(s, self.put(self.put(v, "iter", nx), "n", sub(n, I(1))), e) for s, nx, e in self.step(st, self.get(v, "iter"))]

    def s_StepBy(self, st, v, back):
        if back:
            raise Unknown("step_by")
        src = self.get(v, "iter")
        gap = self.int(self.get(v, "step_minus_one"))
        first = self.get(v, "first_take")
        if first.op != "i":
            raise Unknown("step_by")
        if self.name(src) == "Range":
            # the library rewrites a stepped range: next element, remaining count
            n, k = self.int(self.get(src, "start")), self.int(self.get(src, "end"))
            if k <= 0:
                return [(st, v, None)]
            self.E.conc = True
            return [(st, self.put(v, "iter", self.put(self.put(src, "start", I(n + gap + 1)), "end", I(k - 1))), I(n))]
        live = [(st, src)]
        out = []
        for _ in range(0 if first.a[0] else gap):
            nxt = []
            for s, i in live:
                for s2, nx, e in self.step(s, i):
                    if e is None:
                        out.append((s2, self.put(v, "iter", nx), None))
                    else:
                        nxt.append((s2, nx))
            live = nxt
        for s, i in live:
            for s2, nx, e in self.step(s, i):
                out.append((s2, self.put(self.put(v, "iter", nx), "first_take", I(0)), e))
        return out

    def s_Cloned(self, st, v, back):
        out = []
        for s, nx, e in self.step(st, self.get(v, "it"), back):
            if e is not None and e.op == "ref":
                e = self.E.load(s, (e.a[0], e.a[1]))
            out.append((s, self.put(v, "it", nx), e))
        return out

    s_Copied = s_Cloned

    def s_Fuse(self, st, v, back):
        ti = self.fty(v, "iter")
        out = []
        for s, inner in self.opt(st, self.get(v, "iter")):
            if inner is None:
                out.append((s, v, None))
                continue
            for s2, nx, e in self.step(s, inner, back):
                out.append((s2, self.put(v, "iter", self.none(ti) if e is None else self.some(ti, nx)), e))
        return out

    def s_Peekable(self, st, v, back):
        if back:
            raise Unknown("peekable")
        ti = self.fty(v, "peeked")
        out = []
        for s, pk in self.opt(st, self.get(v, "peeked")):
            w = self.put(v, "peeked", self.none(ti))
            if pk is not None:
                for s2, x in self.opt(s, pk):
                    out.append((s2, w, x))
                continue
            for s2, nx, e in self.step(s, self.get(v, "iter")):
                out.append((s2, self.put(w, "iter", nx), e))
        return out

    def s_TakeWhile(self, st, v, back):
        if back or self.get(v, "flag").op != "i":
            raise Unknown("take_while")
        if self.get(v, "flag").a[0]:
            return [(st, v, None)]
        out = []
        for s, nx, e in self.step(st, self.get(v, "iter")):
            w = self.put(v, "iter", nx)
            if e is None:
                out.append((s, w, None))
                continue
            for s2, nf, r in self.apply(s, self.get(v, "predicate"), [self.wrap(e)]):
                w2 = self.put(w, "predicate", nf)
                for tr, s3 in self.E.fork(s2, r):
                    out.append((s3, w2, e) if tr else (s3, self.put(w2, "flag", I(1)), None))
        return out

    def s_MapWhile(self, st, v, back):
        out = []
        for s, nx, e in self.step(st, self.get(v, "iter"), back):
            w = self.put(v, "iter", nx)
            if e is None:
                out.append((s, w, None))
                continue
            for s2, nf, r in self.apply(s, self.get(v, "predicate"), [e]):
                for s3, x in self.opt(s2, r):
                    out.append((s3, self.put(w, "predicate", nf), x))
        return out

    def s_SkipWhile(self, st, v, back):
        if back or self.get(v, "flag").op != "i":
            raise Unknown("skip_while")
        if self.get(v, "flag").a[0]:
            return [(s, self.put(v, "iter", nx), e) for s, nx, e in self.step(st, self.get(v, "iter"))]
        out, live = [], [(st, v)]
        while live:
            nxt = []
            for s, w in live:
                for s1, nx, e in self.step(s, self.get(w, "iter")):
                    w1 = self.put(w, "iter", nx)
                    if e is None:
                        out.append((s1, w1, None))
                        continue
                    for s2, nf, r in self.apply(s1, self.get(w1, "predicate"), [self.wrap(e)]):
                        w2 = self.put(w1, "predicate", nf)
                        for tr, s3 in self.E.fork(s2, r):
                            if tr:
                                nxt.append((s3, w2))
                            else:
                                out.append((s3, self.put(w2, "flag", I(1)), e))
            live = nxt
        return out

    def s_Scan(self, st, v, back):
        out = []
        for s, nx, e in self.step(st, self.get(v, "iter"), back):
            w = self.put(v, "iter", nx)
            if e is None:
                out.append((s, w, None))
                continue
            o = ("X", "itsc", self.tick())
            s = s.copy()
            s.mem[o] = self.get(v, "state")
            for s2, nf, r in self.apply(s, self.get(v, "f"), [mk("ref", o, ()), e]):
                s2 = s2.copy()
                ns = s2.mem.pop(o)
                for s3, x in self.opt(s2, r):
                    out.append((s3, self.put(self.put(w, "f", nf), "state", ns), x))
        return out

    def s_FlatMap(self, st, v, back):
        return [(s, self.put(v, "inner", nx), e) for s, nx, e in self.step(st, self.get(v, "inner"), back)]

    s_Flatten = s_FlatMap

    def s_FlattenCompat(self, st, v, back):
        if back:
            raise Unknown("flatten")
        fti = self.fty(v, "frontiter")
        bti = self.fty(v, "backiter")
        out, live = [], [(st, v)]
        while live:
            nxt = []
            for s, w in live:
                for s1, fi in self.opt(s, self.get(w, "frontiter")):
                    if fi is not None:
                        for s2, nx, e in self.step(s1, fi):
                            if e is None:
                                nxt.append((s2, self.put(w, "frontiter", self.none(fti))))
                            else:
                                out.append((s2, self.put(w, "frontiter", self.some(fti, nx)), e))
                        continue
                    for s2, nx, e in self.step(s1, self.get(w, "iter")):
                        w2 = self.put(w, "iter", nx)
                        if e is not None:
                            nxt.append((s2, self.put(w2, "frontiter", self.some(fti, self.source(s2, e)))))
                            continue
                        for s3, bi in self.opt(s2, self.get(w2, "backiter")):
                            if bi is None:
                                out.append((s3, w2, None))
                                continue
                            for s4, nx4, e4 in self.step(s3, bi):
                                out.append((s4, self.put(w2, "backiter", self.none(bti) if e4 is None else self.some(bti, nx4)), e4))
            live = nxt
        return out

    def s_Once(self, st, v, back):
        return [(s, self.put(v, "inner", nx), e) for s, nx, e in self.step(st, self.get(v, "inner"), back)]

    def s_IntoIter(self, st, v, back):
        if "option" in self.E.T[v.a[0]]["name"]:
            return [(s, self.put(v, "inner", nx), e) for s, nx, e in self.step(st, self.get(v, "inner"), back)]
        return self.user(st, v, back)

    def s_Item(self, st, v, back):
        ti = self.fty(v, "opt")
        return [(s, self.put(v, "opt", self.none(ti)), x) for s, x in self.opt(st, self.get(v, "opt"))]

    def s_Iter(self, st, v, back):
        if "option" in self.E.T[v.a[0]]["name"]:
            return [(s, self.put(v, "inner", nx), e) for s, nx, e in self.step(st, self.get(v, "inner"), back)]
        return self.user(st, v, back)

    def s_Repeat(self, st, v, back):
        return [(st, v, self.get(v, "element"))]

    def s_Empty(self, st, v, back):
        self.E.conc = True
        return [(st, v, None)]

    def s_FromFn(self, st, v, back):
        if back:
            raise Unknown("from_fn")
        out = []
        for s, nf, r in self.apply(st, v.a[2], []):
            for s2, x in self.opt(s, r):
                out.append((s2, mk("adt", v.a[0], v.a[1], nf), x))
        return out

    def s_Successors(self, st, v, back):
        ti = self.fty(v, "next")
        out = []
        for s, x in self.opt(st, self.get(v, "next")):
            if x is None:
                out.append((s, v, None))
                continue
            for s2, nf, r in self.apply(s, self.get(v, "succ"), [self.wrap(x)]):
                out.append((s2, self.put(self.put(v, "next", r), "succ", nf), x))
        return out

    # ------------------------------------------------------------ running to the end
    def run(self, st, v, acc, body):
        """fold: body(st, acc, elem) -> [(st, ("next", acc) | ("stop", result))]; returns ([(st, iterator', acc)], [(st, iterator', result)])"""
        done, stop = [], []
        live = [(st, v, acc)]
        while live:
            self.tick()
            nxt = []
            if len(live) > 400:
                raise Unknown("too many cases")
            for s, i, a in live:
                for s2, ni, e in self.step(s, i):
                    if e is None:
                        done.append((s2, ni, a))
                        continue
                    for s3, (k, r) in body(s2, a, e):
                        if k == "stop":
                            stop.append((s3, ni, r))
                        else:
                            nxt.append((s3, ni, r))
            live = nxt
        return done, stop

    def all(self, st, v):
        """[(st, [elements])]"""
        done, _ = self.run(st, v, (), lambda s, a, e: [(s, ("next", a + (e,)))])
        return [(s, list(a)) for s, _, a in done]


# ---------------------------------------------------------------- consumers
REG = []


def consumer(*pats):
    def d(fn):
        for p in pats:
            REG.append((re.compile(p), fn))
        return fn
    return d


def guarded(fn, other=None):
    def g(E, st, f, vals, at, dt, fr, uid):
        np = len(E.panics)
        try:
            return fn(It(E, fr, uid), E, st, f, vals, at, dt)
        except Unknown as e:
            del E.panics[np:]
            E.left[f.name[:150] + ": " + str(e)] = E.left.get(f.name[:150] + ": " + str(e), 0) + 1
            return other(E, st, f, vals, at, dt, fr, uid) if other else None
    return g


def byref(E, st, v):
    """the iterator behind `&mut self`: (reference, value)"""
    r = v
    while r.op == "ref":
        x = E.load(st, (r.a[0], r.a[1]))
        if x.op != "ref":
            return r, x
        r = x
    raise Unknown("iterator")


def put(E, s, r, v):
    s = s.copy()
    E.store(s, (r.a[0], r.a[1]), v)
    return s


def opt(E, dt, x):
    return mk("adt", dt, E.P.variant(dt, "None")) if x is None else mk("adt", dt, E.P.variant(dt, "Some"), x)


def c_next(T, E, st, f, vals, at, dt):
    r, v = byref(E, st, vals[0])
    if v.op not in ("it", "adt") or T.name(v) in ("Range", "RangeInclusive") and not f.sname.endswith("next_back"):
        raise Unknown("next")
    if v.op == "adt" and getattr(T, "s_" + T.name(v), None) is None:
        raise Unknown("next")
    return [(put(E, s, r, nv), opt(E, dt, x)) for s, nv, x in T.step(st, v, f.sname.endswith("next_back"))]


def c_nth(T, E, st, f, vals, at, dt):
    r, v = byref(E, st, vals[0])
    n = T.int(vals[1])
    out, live = [], [(st, v)]
    for k in range(n + 1):
        nxt = []
        for s, i in live:
            for s2, ni, x in T.step(s, i, f.sname.endswith("nth_back")):
                if x is None:
                    out.append((put(E, s2, r, ni), opt(E, dt, None)))
                elif k == n:
                    out.append((put(E, s2, r, ni), opt(E, dt, x)))
                else:
                    nxt.append((s2, ni))
        live = nxt
    return out


def c_fold(T, E, st, f, vals, at, dt):
    if len(vals) != 3:
        raise Unknown("fold")
    rev = f.sname.endswith("rfold")
    if rev:
        raise Unknown("rfold")
    def body(s, a, e):
        acc, fn = a
        return [(s2, ("next", (r, nf))) for s2, nf, r in T.apply(s, fn, [acc, e])]
    done, _ = T.run(st, vals[0], (vals[1], vals[2]), body)
    return [(s, a[0]) for s, _, a in done]


def residual(E, T, st, dt, r):
    """[(st, ("next", output) | ("stop", r))] for a value of a Try type"""
    if r.op != "adt":
        raise Unknown("try")
    n = E.P.vname(r.a[0], r.a[1])
    nm = E.T[r.a[0]]["name"].split("::")[-1]
    if nm == "NeverShortCircuit":
        return [(st, ("next", r.a[2]))]
    if n in ("Continue", "Ok", "Some"):
        return [(st, ("next", r.a[2]))]
    if n in ("Break", "Err", "None"):
        return [(st, ("stop", r))]
    raise Unknown("try")


def output(E, dt, x):
    nm = E.T[dt]["name"].split("::")[-1] if E.T[dt]["k"] == "adt" else None
    v = {"ControlFlow": "Continue", "Result": "Ok", "Option": "Some"}.get(nm)
    if nm == "NeverShortCircuit":
        return mk("adt", dt, 0, x)
    if v is None:
        raise Unknown("try output")
    return mk("adt", dt, E.P.variant(dt, v), x)


def c_try_fold(T, E, st, f, vals, at, dt):
    ref, v = byref(E, st, vals[0])
    each = f.sname.endswith("for_each")
    init, fn0 = (UNIT, vals[1]) if each else (vals[1], vals[2])
    def body(s, a, e):
        acc, fn = a
        out = []
        for s2, nf, r in T.apply(s, fn, [e] if each else [acc, e]):
            for s3, (k, x) in residual(E, T, s2, dt, r):
                out.append((s3, ("next", (x, nf)) if k == "next" else ("stop", x)))
        return out
    done, stop = T.run(st, v, (init, fn0), body)
    return [(put(E, s, ref, i), output(E, dt, a[0])) for s, i, a in done] + [(put(E, s, ref, i), r) for s, i, r in stop]


def c_for_each(T, E, st, f, vals, at, dt):
    def body(s, fn, e):
        return [(s2, ("next", nf)) for s2, nf, r in T.apply(s, fn, [e])]
    done, _ = T.run(st, vals[0], vals[1], body)
    return [(s, UNIT) for s, _, _ in done]


def addi(E, T, st, op, a, b, ti):
    r = E.arith(op, a, b)
    full = E.trange(ti)
    if E.rng(st, r).subset(full):
        return [(st, r)]
    out = []
    for tr, s in E.fork(st, E.cond_in(r, full)):
        if tr:
            out.append((s, r))
        else:
            E.panic(s, "overflow in a sum", T.fr, None)
    return out


def c_sum(T, E, st, f, vals, at, dt):
    if E.T[dt]["k"] != "int":
        raise Unknown("sum")
    op, z = ("Mul", 1) if f.sname.endswith("product") else ("Add", 0)
    def body(s, a, e):
        if e.op == "ref":
            e = E.load(s, (e.a[0], e.a[1]))
        return [(s2, ("next", r)) for s2, r in addi(E, T, s, op, a, e, dt)]
    done, _ = T.run(st, vals[0], I(z), body)
    return [(s, a) for s, _, a in done]


def c_count(T, E, st, f, vals, at, dt):
    done, _ = T.run(st, vals[0], 0, lambda s, a, e: [(s, ("next", a + 1))])
    return [(s, I(a)) for s, _, a in done]


def c_last(T, E, st, f, vals, at, dt):
    done, _ = T.run(st, vals[0], None, lambda s, a, e: [(s, ("next", e))])
    return [(s, opt(E, dt, a)) for s, _, a in done]


def c_find(T, E, st, f, vals, at, dt):
    ref, v = byref(E, st, vals[0])
    def body(s, fn, e):
        out = []
        for s2, nf, r in T.apply(s, fn, [T.wrap(e)]):
            for tr, s3 in E.fork(s2, r):
                out.append((s3, ("stop", e) if tr else ("next", nf)))
        return out
    done, stop = T.run(st, v, vals[1], body)
    return [(put(E, s, ref, i), opt(E, dt, None)) for s, i, _ in done] + [(put(E, s, ref, i), opt(E, dt, x)) for s, i, x in stop]


def c_find_map(T, E, st, f, vals, at, dt):
    ref, v = byref(E, st, vals[0])
    def body(s, fn, e):
        out = []
        for s2, nf, r in T.apply(s, fn, [e]):
            for s3, x in T.opt(s2, r):
                out.append((s3, ("next", nf) if x is None else ("stop", r)))
        return out
    done, stop = T.run(st, v, vals[1], body)
    return [(put(E, s, ref, i), opt(E, dt, None)) for s, i, _ in done] + [(put(E, s, ref, i), x) for s, i, x in stop]


def c_search(T, E, st, f, vals, at, dt):
    what = f.sname.rsplit("::", 1)[1]
    ref, v = byref(E, st, vals[0])
    def body(s, a, e):
        fn, k = a
        out = []
        for s2, nf, r in T.apply(s, fn, [e]):
            for tr, s3 in E.fork(s2, r):
                if tr is (what != "all"):
                    out.append((s3, ("stop", opt(E, dt, I(k)) if what == "position" else I(int(what == "any")))))
                else:
                    out.append((s3, ("next", (nf, k + 1))))
        return out
    done, stop = T.run(st, v, (vals[1], 0), body)
    end = (lambda: opt(E, dt, None)) if what == "position" else (lambda: I(int(what == "all")))
    return [(put(E, s, ref, i), end()) for s, i, _ in done] + [(put(E, s, ref, i), x) for s, i, x in stop]


def c_minmax(T, E, st, f, vals, at, dt):
    mx = f.sname.endswith("max")
    ety = E.T[dt]["args"][0]
    pt = ety
    while E.T[pt]["k"] == "ref":
        pt = E.T[pt]["of"]
    if E.T[pt]["k"] != "int":
        raise Unknown("max")
    def val(s, x):
        while x.op == "ref":
            x = E.load(s, (x.a[0], x.a[1]))
        return x
    def body(s, a, e):
        if a is None:
            return [(s, ("next", e))]
        # max keeps the last of equal elements, min the first
        c = E.cond_in(sub(val(s, e), val(s, a)), iv(0, G.INF) if mx else iv(-G.INF, -1))
        return [(s2, ("next", e if tr else a)) for tr, s2 in E.fork(s, c)]
    done, _ = T.run(st, vals[0], None, body)
    return [(s, opt(E, dt, a)) for s, _, a in done]


def c_reduce(T, E, st, f, vals, at, dt):
    def body(s, a, e):
        acc, fn = a
        if acc is None:
            return [(s, ("next", (e, fn)))]
        return [(s2, ("next", (r, nf))) for s2, nf, r in T.apply(s, fn, [acc, e])]
    done, _ = T.run(st, vals[0], (None, vals[1]), body)
    return [(s, opt(E, dt, a[0])) for s, _, a in done]


def gather(T, E, M, st, ti, els, base=None):
    """[(st, collection)] of type ti from a list of elements"""
    t = E.T[ti]
    if t["k"] == "tuple" and not t["of"]:
        return [(st, UNIT)]
    if t["k"] != "adt":
        if t["k"] == "slice":
            return [(st, seq(*[mk("e", x) for x in els]))]
        no(t["k"])
    n = t["name"].split("::")[-1]
    if n in ("Vec", "VecDeque"):
        return [(st, seq(*([base] if base is not None else []), *[mk("e", x) for x in els]))]
    if n == "Box":
        r = gather(T, E, M, st, t["args"][0], els)
        return [(s, mk("box", x)) for s, x in r]
    if n == "String":
        out = [base] if base is not None else []
        for x in els:
            while x.op == "ref":
                x = E.load(st, (x.a[0], x.a[1]))
            if x.op == "box":
                x = x.a[0]
            out.append(x if x.op == "S" else M.chr_s(x))
        return [(st, S(*out))]
    if n in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        cur = [(st, base if base is not None else mk("map", "empty"))]
        for x in els:
            nxt = []
            for s, m in cur:
                if n.endswith("Set"):
                    k, v = x, UNIT
                else:
                    if x.op != "tup":
                        no("pair")
                    k, v = x.a[0], x.a[1]
                k = M.norm_key(E, s, k)
                for s2, r in M.map_cases(E, s, m, k):
                    if r[0] == "maybe":
                        no("key")
                    nxt.append((s2, M.map_insert(m, k, v)))
            cur = nxt
        return cur
    if n in ("Result", "Option"):
        good = "Ok" if n == "Result" else "Some"
        vals = []
        for x in els:
            if x.op != "adt":
                no("result")
            if E.P.vname(x.a[0], x.a[1]) != good:
                return [(st, mk("adt", ti, E.P.variant(ti, "Err"), x.a[2]) if n == "Result" else mk("adt", ti, E.P.variant(ti, "None")))]
            vals.append(x.a[2])
        return [(s, mk("adt", ti, E.P.variant(ti, good), v)) for s, v in gather(T, E, M, st, t["args"][0], vals)]
    no(n)


def no(what):
    raise Unknown(str(what))


def elements(T, E, st, ti, v):
    """all elements; for a fallible collection, up to and including the first failure"""
    nm = E.T[ti]["name"].split("::")[-1] if E.T[ti]["k"] == "adt" else None
    bad = {"Result": "Err", "Option": "None"}.get(nm)
    def body(s, a, e):
        if bad:
            if e.op != "adt":
                no("result")
            if E.P.vname(e.a[0], e.a[1]) == bad:
                return [(s, ("stop", a + (e,)))]
        return [(s, ("next", a + (e,)))]
    done, stop = T.run(st, v, (), body)
    return [(s, list(a)) for s, _, a in done + stop]


def c_collect(T, E, st, f, vals, at, dt):
    out = []
    for s, els in elements(T, E, st, dt, T.source(st, vals[0])):
        out += gather(T, E, E.M, s, dt, els)
    return out


def c_extend(T, E, st, f, vals, at, dt):
    ref, base = byref(E, st, vals[0])
    ti = at[0]
    while E.T[ti]["k"] in ("ref", "ptr"):
        ti = E.T[ti]["of"]
    if base.op not in ("seq", "S", "map"):
        no("collection")
    src = vals[1]
    w = src
    if w.op == "ref" and E.load(st, (w.a[0], w.a[1])).op == "map" or w.op == "map":
        no("map")
    out = []
    deref = E.T[ti]["name"].split("::")[-1] in ("Vec", "VecDeque")
    ety = E.T[ti]["args"][0] if E.T[ti].get("args") else None
    for s, els in elements(T, E, st, ti, T.source(st, src)):
        if deref and ety is not None and E.T[ety]["k"] not in ("ref", "ptr", "str"):
            els = [E.load(s, (x.a[0], x.a[1])) if x.op == "ref" else x for x in els]
        for s2, c in gather(T, E, E.M, s, ti, els, base):
            out.append((put(E, s2, ref, c), UNIT))
    return out


def c_unzip(T, E, st, f, vals, at, dt):
    t = E.T[dt]
    if t["k"] != "tuple" or len(t["of"]) != 2:
        no("unzip")
    parts = t["of"]
    out = []
    for s, els in T.all(st, vals[0]):
        if any(e.op != "tup" for e in els):
            no("pair")
        for s2, a in gather(T, E, E.M, s, parts[0], [e.a[0] for e in els]):
            for s3, b in gather(T, E, E.M, s2, parts[1], [e.a[1] for e in els]):
                out.append((s3, mk("tup", a, b)))
    return out


def c_partition(T, E, st, f, vals, at, dt):
    parts = E.T[dt]["of"]
    def body(s, a, e):
        fn, y, n = a
        out = []
        for s2, nf, r in T.apply(s, fn, [T.wrap(e)]):
            for tr, s3 in E.fork(s2, r):
                out.append((s3, ("next", (nf, y + (e,), n) if tr else (nf, y, n + (e,)))))
        return out
    done, _ = T.run(st, vals[0], (vals[1], (), ()), body)
    out = []
    for s, _, (fn, y, n) in done:
        for s2, a in gather(T, E, E.M, s, parts[0], list(y)):
            for s3, b in gather(T, E, E.M, s2, parts[1], list(n)):
                out.append((s3, mk("tup", a, b)))
    return out


def c_peek(T, E, st, f, vals, at, dt):
    ref, v = byref(E, st, vals[0])
    ti = T.fty(v, "peeked")
    iti = E.T[ti]["args"][0]
    out = []
    for s, pk in T.opt(st, T.get(v, "peeked")):
        if pk is None:
            for s2, nx, e in T.step(s, T.get(v, "iter")):
                o = opt(E, iti, e)
                nv = T.put(T.put(v, "iter", nx), "peeked", mk("adt", ti, E.P.variant(ti, "Some"), o))
                s2 = put(E, s2, ref, nv)
                out.append((s2, o))
        else:
            out.append((s, pk))
    res = []
    i = T.fidx(v, "peeked")
    for s, o in out:
        if o.op != "adt":
            no("peek")
        if len(o.a) == 2:
            res.append((s, opt(E, dt, None)))
        elif f.sname.endswith("peek"):
            res.append((s, opt(E, dt, T.wrap(o.a[2]))))
        else:
            no("peek_mut")
    return res


def register(M):
    """put the consumers in front of the models; each falls back to the model it replaces"""
    reg = []
    def c(pat, fn, other=None):
        reg.append((re.compile(pat), guarded(fn, other)))
    it = r"(as std::iter::(Double|Exact)?\w*Iterator>|^(core|std)::(slice|str|array|iter|ops|option|vec|char)[\w:]*|^std::iter::\w+[\w:]*)::"

    def ch(E, st, f, vals, at, dt, fr, uid):
        """the model that would have been used"""
        for r, fn in M.REG_OLD:
            if r.search(f.sname):
                return fn(E, st, f, vals, at, dt, fr, uid)
        return None
    c(it + r"next(_back)?$", c_next, ch)
    c(it + r"nth(_back)?$", c_nth, ch)
    c(it + r"fold$", c_fold, ch)
    c(it + r"(try_fold|try_for_each)$", c_try_fold, ch)
    c(it + r"for_each$", c_for_each, ch)
    c(it + r"(sum|product)$", c_sum, ch)
    c(it + r"count$", c_count, ch)
    c(it + r"last$", c_last, ch)
    c(it + r"find$", c_find, ch)
    c(it + r"find_map$", c_find_map, ch)
    c(it + r"(any|all|position)$", c_search, ch)
    c(it + r"(max|min)$", c_minmax, ch)
    c(it + r"reduce$", c_reduce, ch)
    c(it + r"collect$", c_collect, ch)
    c(it + r"unzip$", c_unzip, ch)
    c(it + r"partition$", c_partition, ch)
    c(r" as std::iter::FromIterator>::from_iter$|^std::(vec|string|collections)[\w:]*::from_iter$", c_collect, ch)
    c(r" as std::iter::Extend>::extend$", c_extend, ch)
    c(r"Peekable::(peek)$", c_peek, ch)
    M.REG_OLD = list(M.REG)
    M.REG[:0] = reg
